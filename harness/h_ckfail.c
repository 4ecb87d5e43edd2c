/* checkpoints and failures: every write may fail, the run may stop anywhere, a file may be cut off anywhere */
#define _GNU_SOURCE
#include "sgrid.h"
#include "main.h"
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <dlfcn.h>
int sgrid_checkpoint(void); void checkpoint_write(tGrid *g); void evolve_vlregister(tVarList *u);
extern int npdbmax;
static int pick(int k, int lo, int hi) { int r=in_i(k,lo,hi), i; for(i=lo;i<hi;i++) if(r==i) return i; return hi; }
static int same(const char *a, const char *b) { int i=0; while(a[i] && a[i]==b[i]) i++; return a[i]==b[i]; }
/* files in memory; what is written reaches the disk at once or (lazy) when the file is closed */
typedef struct { char name[40]; unsigned char d[4000]; int n, on; } mfile;
static mfile mf[4]; static int nmf;
typedef struct { mfile *f; int pos, err, w; } mfp;
static mfp fps_[4]; static int nopen;
static int renfail; static int ops, fail_at=-1, fail_upto=1<<30, crash_at=-1, lazy;
static int step(void) { int k=ops++; if(k==crash_at) exit(55); return fail_at>=0 && k>=fail_at && k<fail_upto; }
static mfile *find(const char *s) { int i; for(i=0;i<nmf;i++) if(mf[i].on && same(mf[i].name,s)) return mf+i; return 0; }
static void cpy(char *d, const char *s) { while((*d++=*s++)); }
static int ours(FILE *fp) { return (char*)fp>=(char*)fps_ && (char*)fp<(char*)(fps_+4); }
#ifdef SYMEX
#define REAL(r,n,t,a) return 0
#else
#define REAL(r,n,t,a) { static r (*q) t; if(!q) q=(r (*) t) dlsym(RTLD_NEXT,n); return q a; }
#endif
FILE *fopen(const char *p, const char *m)
{ mfile *f; mfp *x; int i;
  if(strstr(p,"checkpoint.")==0) REAL(FILE*,"fopen",(const char*,const char*),(p,m));
  f=find(p);
  if(m[0]=='r') { if(!f) return 0; }
  else { if(step()) return 0; if(!f) { f=mf+nmf++; cpy(f->name,p); f->on=1; } f->n=0; }
  for(i=0;i<4;i++) if(!fps_[i].f) break;
  x=fps_+i; x->f=f; x->pos=0; x->err=0; x->w= m[0]!='r'; nopen++; return (FILE*)x; }
int fclose(FILE *fp)
{ mfp *x=(mfp*)fp; int r=0; if(!ours(fp)) REAL(int,"fclose",(FILE*),(fp));
  v_true("closed_once", x->f!=0);
  if(x->w && step()) { r=EOF; if(lazy && x->f->n>lazy) x->f->n-=lazy; else if(lazy) x->f->n=0; }
  x->f=0; nopen--; return r; }
size_t fwrite(const void *p, size_t s, size_t n, FILE *fp)
{ mfp *x=(mfp*)fp; const unsigned char *b=p; size_t i, m=s*n; if(!ours(fp)) REAL(size_t,"fwrite",(const void*,size_t,size_t,FILE*),(p,s,n,fp));
  if(!lazy && step()) { x->err=1; m/=2; n= s ? m/s : 0; }
  for(i=0;i<m;i++) x->f->d[x->f->n++]=b[i];
  return n; }
int fputc(int c, FILE *fp) { char b=c; if(!ours(fp)) REAL(int,"fputc",(int,FILE*),(c,fp)); return fwrite(&b,1,1,fp)==1 ? c : EOF; }
int fputs(const char *s, FILE *fp) { if(!ours(fp)) REAL(int,"fputs",(const char*,FILE*),(s,fp)); return fwrite(s,1,strlen(s),fp)==strlen(s) ? 1 : EOF; }
#ifdef SYMEX
int vh_fwrite(char *b, int n, FILE *fp) { return !ours(fp) || (int) fwrite(b,1,n,fp)==n ? n : -1; }
#else
int fprintf(FILE *fp, const char *f, ...)
{ va_list ap; static char b[5000]; int n; va_start(ap,f);
  if(!ours(fp)) { n=vfprintf(fp,f,ap); va_end(ap); return n; }
  n=vsnprintf(b,5000,f,ap); va_end(ap);
  return (int) fwrite(b,1,n,fp)==n ? n : -1; }
#endif
size_t fread(void *p, size_t s, size_t n, FILE *fp)
{ mfp *x=(mfp*)fp; unsigned char *b=p; size_t i; if(!ours(fp)) REAL(size_t,"fread",(void*,size_t,size_t,FILE*),(p,s,n,fp));
  for(i=0;i<s*n && x->pos<x->f->n;i++) b[i]=x->f->d[x->pos++];
  return s ? i/s : 0; }
int fgetc(FILE *fp) { mfp *x=(mfp*)fp; if(!ours(fp)) REAL(int,"fgetc",(FILE*),(fp)); return x->pos<x->f->n ? x->f->d[x->pos++] : EOF; }
int getc(FILE *fp) { return fgetc(fp); }
char *fgets(char *s, int n, FILE *fp)
{ mfp *x=(mfp*)fp; int i=0; if(!ours(fp)) REAL(char*,"fgets",(char*,int,FILE*),(s,n,fp));
  while(i<n-1 && x->pos<x->f->n) { s[i++]=x->f->d[x->pos++]; if(s[i-1]=='\n') break; }
  s[i]=0; return i ? s : 0; }
int ferror(FILE *fp) { if(!ours(fp)) REAL(int,"ferror",(FILE*),(fp)); return ((mfp*)fp)->err; }
int feof(FILE *fp) { mfp *x=(mfp*)fp; if(!ours(fp)) REAL(int,"feof",(FILE*),(fp)); return x->pos>=x->f->n; }
int fflush(FILE *fp) { if(!ours(fp)) REAL(int,"fflush",(FILE*),(fp)); if(lazy && step()) { ((mfp*)fp)->err=1; return EOF; } return 0; }
int fseek(FILE *fp, long o, int w) { mfp *x=(mfp*)fp; long q; if(!ours(fp)) REAL(int,"fseek",(FILE*,long,int),(fp,o,w)); q= w==SEEK_SET ? o : w==SEEK_CUR ? x->pos+o : x->f->n+o; if(q<0) return -1; x->pos=q; return 0; }
long ftell(FILE *fp) { if(!ours(fp)) REAL(long,"ftell",(FILE*),(fp)); return ((mfp*)fp)->pos; }
void rewind(FILE *fp) { if(ours(fp)) ((mfp*)fp)->pos=0; }
int fgetpos(FILE *fp, fpos_t *p) { if(!ours(fp)) REAL(int,"fgetpos",(FILE*,fpos_t*),(fp,p)); *(int*)p=((mfp*)fp)->pos; return 0; }
int fsetpos(FILE *fp, const fpos_t *p) { if(!ours(fp)) REAL(int,"fsetpos",(FILE*,const fpos_t*),(fp,p)); ((mfp*)fp)->pos=*(int*)p; return 0; }
int fileno(FILE *fp) { return 77; }
int fsync(int fd) { return 0; }
int rename(const char *a, const char *b)
{ mfile *f=find(a), *g=find(b); if(!f) return -1; if(step()) { renfail=1; return -1; } if(g) g->on=0; cpy(f->name,b); return 0; }
int remove(const char *a) { mfile *f=find(a); if(!f || step()) return -1; f->on=0; return 0; }
int unlink(const char *a) { return remove(a); }
int system(const char *c) { return 1; }
int system2(char *a, char *b) { return system3(a,b,""); }
int system3(char *a, char *b, char *c) { if(same(a,"mv") || same(a,"mv -f")) return rename(b,c); return 0; }
/* the parts of a restart that have nothing to do with files */
tGrid *make_empty_grid(int nvariables, int pr) { return 0; }
int copy_grid_withoutvars(tGrid *a, tGrid *b, int pr) { return 0; }
int set_BoxStructures_fromPars(tGrid *g, int pr) { return 0; }
void free_grid(tGrid *g) { }
/* two boxes, two variables, a few parameters; the state number s is 1 or 2 */
static tGrid *g; static int nb=2;
static void state(int s)
{ int b, k; char v[3]="s0"; v[1]+=s; g->iteration=10*s; g->time=1.5*s; for(b=0;b<nb;b++) for(k=0;k<2+b;k++) { g->box[b]->v[0][k]=s+0.5*k; g->box[b]->v[1][k]=-s-b; } Sets("p",v); }
static int is_state(int s)
{ int b, k, r; char v[3]="s0"; v[1]+=s; r= g->iteration==10*s && g->time==1.5*s && same(Gets("p"),v); for(b=0;b<nb;b++) for(k=0;k<2+b;k++) if(g->box[b]->v[0][k]!=s+0.5*k || g->box[b]->v[1][k]!=-s-b) r=0; return r; }
static void setup(void)
{ tVarList *u; int b; npdbmax=40;
  AddPar("storage_verbose","no","d"); AddPar("outdir","out","d"); AddPar("checkpoint","yes","d"); AddPar("iterations","0","d"); AddPar("finaltime","0","d"); AddPar("p","x","d");
  AddPar("checkpoint_additional_variables","","d"); sgrid_checkpoint(); Sets("checkpoint_no_read_parlist","checkpoint");
  AddVar("u","","d"); AddVar("w","","d");
  g=alloc_grid(nb,globalnvariables); for(b=0;b<nb;b++) alloc_box(g,b,2+b,1,1);
  g->dt=0.5;
  u=vlalloc(g); vlpush(u,0); vlpush(u,1); enablevarlist(u); evolve_vlregister(u); }
static void do_write(void *a) { checkpoint_write(g); }
static void do_restart(void *a) { *(int*)a=checkpoint(g); }
static int restart(int *ret)
{ int r; Sets("checkpoint","restart"); Sets("checkpoint_restart_it","-1"); *ret=0; fail_at=crash_at=-1; lazy=0; r=v_call_exits(do_restart,ret); Sets("checkpoint","yes"); return r; }
/* c: old checkpoint there, kind (0 crash, 1 one failure, 2 failures from there on (disk full)), lazy, range of steps */
void h_wfail(int *c)
{ int ex, ret, k=pick(0,c[3],c[4]), old=c[0]; mfile *f; char name[20];
  setup();
  if(old) { state(1); checkpoint_write(g); }
  ops=0; state(2); lazy=c[2];
  if(c[1]==0) crash_at=k; else { fail_at=k; if(c[1]==1) fail_upto=k+1; }
  ex=v_call_exits(do_write,0);
  if(c[5]) v_true("enough_steps", ops<=c[4]);
  if(ops<=k) { v_true("no_error_without_failure", !ex); }
  else { v_reach("failed"); }
  if(c[1] && ops>k) v_true("failed_write_is_fatal", ex || renfail);
  f=find("out/checkpoint.0");
  v_true("old_checkpoint_still_there", !old || f!=0);
  if(!f) { v_true("failure_reported", ex || (c[1] && ops>k)); v_reach("end"); return; }
  /* whatever is there under its final name is complete: old or new */
  state(3); cpy(f->name,"out_previous/checkpoint.0");
  ex=restart(&ret);
  v_true("file_accepted", !ex && ret==1);
  v_true("complete_old_or_new", is_state(2) || (old && is_state(1)));
  if(ops<=k) v_true("new_state_written", is_state(2));
  v_reach("end"); }
/* a file cut off anywhere is never taken for a good one */
void h_cut(int *c)
{ int ret, ex, n; mfile *f;
  setup(); state(1); checkpoint_write(g); f=find("out/checkpoint.0"); v_true("written", f!=0); cpy(f->name,"out_previous/checkpoint.0");
  if(c[0]>=0) { n=pick(0,c[0],c[1]); if(n>=f->n-c[2]) { v_reach("end"); return; } f->n=n; } else f->n-=1+pick(0,0,-c[0]);
  state(3);
  ex=restart(&ret);
  v_true("cut_off_file_is_fatal_or_complete", ex || (ret==1 && is_state(1)));
  v_reach("end"); }
