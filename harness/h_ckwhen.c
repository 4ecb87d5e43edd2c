/* when checkpoints are written and read; output directories on a restart */
#define _GNU_SOURCE
#include "sgrid.h"
#include "main.h"
#include "vh.h"
#include "fsmodel.h"
#include <stdio.h>
#include <math.h>
#include <dlfcn.h>
int sgrid_checkpoint(void); int make_output_directory(void); void checkpoint_copy_output(void); int checkpoint_checkifrestart(tGrid *g);
extern int npdbmax;
static int pick(int k, int lo, int hi) { int r=in_i(k,lo,hi), i; for(i=lo;i<hi;i++) if(r==i) return i; return hi; }
static int written, wit, rd; static double wt;
void checkpoint_write(tGrid *g) { written++; wit=g->iteration; wt=g->time; }
void checkpoint_read(tGrid *g) { rd++; }
static void pars(void)
{ npdbmax=40; AddPar("outdir","run","d"); AddPar("parameterfile","run.par","d"); AddPar("checkpoint","yes","d"); AddPar("iterations","0","d"); AddPar("finaltime","0","d"); sgrid_checkpoint(); }
/* c[0]: 0 every di iterations, 1 every checkpoint_dt */
void h_when(int *c)
{ tGrid *g=calloc(1,sizeof(tGrid)); int di=0, it, rit= c[0] ? 0 : pick(0,-1,2), want, r, off= c[0] ? 0 : pick(4,0,1); double dt=in_d(1,0.01,2), ct;
  pars(); Seti("checkpoint_restart_it",rit);
  it=pick(2,0,c[0]?6:9); g->iteration=it; g->dt=dt; g->time=it*dt;
  if(c[0]) { ct=in_d(3,0.001,20); v_assume(ct<=6.5*dt); Setd("checkpoint_dt",ct); for(di=1;(di+1)*dt<=ct+1e-9*dt;di++); if(ct<dt) di=1;
    { int q; for(q=1;q<8;q++) v_assume((ct<(q-1e-6)*dt) | (ct>(q-1e-12)*dt)); } }
  else { di=pick(3,1,5); Seti("checkpoint_di",di); }
  if(off==1) Sets("checkpoint","no");
  r=checkpoint(g);
  want= off!=1 && it%di==0 && !(it==0 && rit>0);
  v_true("written_when_due", written==want); v_true("no_read", rd==0 && r==0);
  if(want) v_true("current_state_written", wit==it && g->iteration==it);
  v_reach("end"); }
/* directories over a restart with a crash anywhere: the content of a file is given by its size class: 0 old run, 1 new run, 2 incomplete copy */
static char dummy[8];
FILE *fopen(const char *p, const char *m)
{ char q[64]; int f;
  if(strstr(p,"checkpoint.")) { f=fs_lookup(p,1,q); return f>=0 && fs[f].type==F_FILE ? (FILE*)dummy : 0; }
#ifdef SYMEX
  return 0;
#else
  { static FILE *(*r)(const char*,const char*); if(!r) r=dlsym(RTLD_NEXT,"fopen"); return r(p,m); }
#endif
}
int fclose(FILE *f)
{ if(f==(FILE*)dummy) return 0;
#ifdef SYMEX
  return 0;
#else
  { static int (*r)(FILE*); if(!r) r=dlsym(RTLD_NEXT,"fclose"); return r(f); }
#endif
}
int copy_file_into_dir(char *f, char *d)
{ char q[64]; int i; if(fs_step()) return -1; i=fs_lookup(d,1,q); if(i<0) return -1; i=fs_len(q); q[i]='/'; fs_cp(q+i+1,"run.par"); if(fs_find(q)<0) fs_add(q,F_FILE,"new"); return 0; }
/* cp -pr a b, one entry at a time; a file is incomplete while it is copied */
int system(const char *s)
{ char a[64], b[64], p[64], q[64]; int n=0, i, k, m, into=0;
  if(!s) return 1;
  if(strncmp(s,"cp -pr ",7)!=0) { v_true("unexpected_command", 0); return 1; }
  s+=7; for(i=0;s[i] && s[i]!=' ';i++) a[i]=s[i]; a[i]=0; s+=i; while(*s==' ') s++; for(i=0;s[i] && s[i]!=' ';i++) b[i]=s[i]; b[i]=0;
  i=fs_lookup(a,0,p); if(i<0) return 1;
  n=fs_lookup(b,1,q); if(n>=0 && fs[n].type==F_DIR) { m=fs_len(q); q[m]='/'; for(k=fs_len(p);p[k-1]!='/';k--); fs_cp(q+m+1,p+k); }
  if(fs_step()) return 1;
  if(fs_find(q)<0) fs_add(q,fs[i].type,fs[i].target);
  m=nfs; n=fs_len(p);
  for(i=0;i<m;i++) if(fs[i].type && fs_below(p,fs[i].path))
  { char t[64]; int j; fs_cp(t,q); fs_cp(t+fs_len(t),fs[i].path+n); j=fs_find(t);
    if(fs_step()) return 1;
    if(j<0) j=fs_add(t,fs[i].type,"part"); else fs_cp(fs[j].target,"part");
    if(fs_step()) return 1;
    fs_cp(fs[j].target,fs[i].target); }
  return 0; }
static void cat3(char *d, const char *a, const char *b) { fs_cp(d,a); fs_cp(d+fs_len(d),b); }
static int has(const char *p, const char *content) { int i=fs_find(p); return i>=0 && fs[i].type==F_FILE && fs_eq(fs[i].target,content); }
static void do_start(void *a) { make_output_directory(); checkpoint_checkifrestart(0); }
static void do_copy(void *a) { checkpoint_copy_output(); }
/* c[0]: checkpoint_previous; c[1]: --keep_previous; c[2]: run stops before its restart, c[3]: range of crash points */
void h_dirs(int *c)
{ int ex, n, i; 
  pars(); if(c[0]) Sets("checkpoint_previous","yes"); if(c[1]) AddPar("sgrid_options","--keep_previous","d");
  fs_add("/w",F_DIR,0); fs_add("/w/run.par",F_FILE,"x");
  n=pick(0,0,1); /* output of an earlier run in run/ or run_previous/ */
  { char *d= c[1] ? "/w/run_previous" : "/w/run"; char t[64]; fs_add(d,F_DIR,0); cat3(t,d,"/checkpoint.0"); if(n) fs_add(t,F_FILE,"old"); cat3(t,d,"/out.txt"); fs_add(t,F_FILE,"old"); cat3(t,d,"/z"); fs_add(t,F_FILE,"old"); }
  fs_crash=pick(1,0,c[3]);
  ex=v_call_exits(do_start,0);
  if(!ex && n)
  { v_true("restart_noticed", fs_eq(Gets("checkpoint"),"restart"));
    fs_add("/w/run/out.txt",F_FILE,"new");
    ex=v_call_exits(do_copy,0); }
  if(n) /* the checkpoint survives complete, and the next start finds it or refuses to run */
  { v_true("checkpoint_survives", has("/w/run/checkpoint.0","old") || has("/w/run_previous/checkpoint.0","old"));
    if(!ex)
    { v_true("enough_crash_points", fs_crash>=fs_ops);
      v_true("output_continued", has("/w/run/out.txt","old") && has("/w/run/checkpoint.0","old") && has("/w/run/z","old"));
      v_true("previous_kept_if_asked", (c[0] || c[1])==has("/w/run_previous/out.txt","old")); }
    else /* stopped: start again, with a crash anywhere or not, and again */
    for(i=0;i<2;i++)
    { fs_crash= i ? -1 : pick(2,-1,c[4]); fs_ops=0; Sets("checkpoint","yes");
      ex=v_call_exits(do_start,0);
      if(!ex && fs_eq(Gets("checkpoint"),"restart")) ex=v_call_exits(do_copy,0);
      v_true("checkpoint_survives_next_start", has("/w/run/checkpoint.0","old") || has("/w/run_previous/checkpoint.0","old"));
      if(!ex) { v_true("next_start_uses_complete_checkpoint", !fs_eq(Gets("checkpoint"),"restart") || (has("/w/run/checkpoint.0","old") && has("/w/run/out.txt","old") && has("/w/run/z","old"))); break; } } }
  v_reach("end"); }
