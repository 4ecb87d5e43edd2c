/* stand-ins for the directory functions of the operating system: a small file system in memory, nothing real is touched.
   cwd is /w. Every operation that changes something is counted, may fail (fs_fail) or stop the run (fs_crash). */
#include <dirent.h>
#include <sys/stat.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <setjmp.h>
enum { F_NONE, F_FILE, F_DIR, F_LINK };
typedef struct { char path[64]; int type; char target[24]; } fnode;
static fnode fs[40]; static int nfs, fs_ops, fs_fail=-1, fs_crash=-1;
static int fs_eq(const char *a, const char *b) { while(*a && *a==*b) { a++; b++; } return *a==*b; }
static void fs_cp(char *d, const char *s) { while((*d++=*s++)); }
static int fs_len(const char *a) { int i=0; while(a[i]) i++; return i; }
static int fs_find(const char *p) { int i; for(i=0;i<nfs;i++) if(fs[i].type && fs_eq(fs[i].path,p)) return i; return -1; }
static int fs_add(const char *p, int type, const char *target)
{ fs_cp(fs[nfs].path,p); fs[nfs].type=type; fs_cp(fs[nfs].target,target?target:""); return nfs++; }
/* is q below p */
static int fs_below(const char *p, const char *q) { int n=fs_len(p), i; for(i=0;i<n;i++) if(q[i]!=p[i]) return 0; return q[n]=='/'; }
/* absolute normal form; links in all components but the last are followed (the last one too if follow) */
static int fs_norm(const char *p, char *out, int follow, int depth)
{ int n=0, i=0, k;
  if(depth>5) return -1;
  if(p[0]!='/') { out[0]='/'; out[1]='w'; n=2; }
  for(;;)
  { while(p[i]=='/') i++;
    if(!p[i]) break;
    for(k=0;p[i+k] && p[i+k]!='/';k++);
    if(k==1 && p[i]=='.') { i+=k; continue; }
    if(k==2 && p[i]=='.' && p[i+1]=='.') { while(n>0 && out[n-1]!='/') n--; if(n>0) n--; i+=k; continue; }
    if(n+k+1>62) return -1;
    out[n++]='/'; while(k--) out[n++]=p[i++]; out[n]=0;
    { int f=fs_find(out), last=1, j;
      for(j=i;p[j];j++) if(p[j]!='/') last=0;
      if(f>=0 && fs[f].type==F_LINK && (!last || follow))
      { char t[64]; if(fs_norm(fs[f].target,t,1,depth+1)<0) return -1; fs_cp(out,t); n=fs_len(out); } } }
  out[n]=0; return n; }
static int fs_step(void) { int k=fs_ops++; if(k==fs_crash) exit(55); return k==fs_fail; }
static int fs_lookup(const char *p, int follow, char *q) { if(fs_norm(p,q,follow,0)<0) return -1; return fs_find(q); }
typedef struct { char p[64]; int pos; struct dirent e; int open; } fdir;
static int fs_open_dirs;
DIR *opendir(const char *name)
{ char q[64]; int f=fs_lookup(name,1,q); fdir *d; if(f<0 || fs[f].type!=F_DIR) { errno=ENOENT; return 0; }
  d=malloc(sizeof(fdir)); fs_cp(d->p,q); d->pos=-2; d->open=1; fs_open_dirs++; return (DIR*)d; }
struct dirent *readdir(DIR *x)
{ fdir *d=(fdir*)x;
  for(;;)
  { int i=d->pos++, n;
    if(i>=nfs) return 0;
    if(i<0) { fs_cp(d->e.d_name, i==-2 ? "." : ".."); d->e.d_type=DT_DIR; return &d->e; }
    if(!fs[i].type || !fs_below(d->p,fs[i].path)) continue;
    n=fs_len(d->p)+1; { int j; for(j=n;fs[i].path[j];j++) if(fs[i].path[j]=='/') break; if(fs[i].path[j]) continue; }
    fs_cp(d->e.d_name,fs[i].path+n); d->e.d_type= fs[i].type==F_DIR ? DT_DIR : fs[i].type==F_LINK ? DT_LNK : DT_REG;
    return &d->e; } }
int closedir(DIR *x) { fdir *d=(fdir*)x; if(!d->open) return -1; d->open=0; fs_open_dirs--; return 0; }
static int fs_unlink(const char *p, int dirok, int fileok)
{ char q[64]; int f=fs_lookup(p,0,q), i;
  if(f<0) { errno=ENOENT; return -1; }
  if(fs[f].type==F_DIR) { if(!dirok) return -1; for(i=0;i<nfs;i++) if(fs[i].type && fs_below(q,fs[i].path)) { errno=ENOTEMPTY; return -1; } }
  else if(!fileok) return -1;
  if(fs_step()) { errno=EACCES; return -1; }
  fs[f].type=F_NONE; return 0; }
int remove(const char *p) { return fs_unlink(p,1,1); }
int unlink(const char *p) { return fs_unlink(p,0,1); }
int rmdir(const char *p) { return fs_unlink(p,1,0); }
static int fs_stat(const char *p, struct stat *s, int follow)
{ char q[64]; int f=fs_lookup(p,follow,q); if(f<0) { errno=ENOENT; return -1; }
  s->st_mode= fs[f].type==F_DIR ? S_IFDIR|0700 : fs[f].type==F_LINK ? S_IFLNK|0777 : S_IFREG|0600; return 0; }
int stat(const char *p, struct stat *s) { return fs_stat(p,s,1); }
int lstat(const char *p, struct stat *s) { return fs_stat(p,s,0); }
int access(const char *p, int m) { char q[64]; return fs_lookup(p,1,q)<0 ? -1 : 0; }
int mkdir(const char *p, mode_t m)
{ char q[64]; if(fs_lookup(p,0,q)>=0) { errno=EEXIST; return -1; } if(fs_step()) return -1; fs_add(q,F_DIR,0); return 0; }
int rename(const char *a, const char *b)
{ char p[64], q[64], t[64]; int f=fs_lookup(a,0,p), g=fs_lookup(b,0,q), i, j, n;
  if(f<0) { errno=ENOENT; return -1; }
  if(g>=0 && fs[g].type==F_DIR) { if(fs[f].type!=F_DIR) return -1; for(i=0;i<nfs;i++) if(fs[i].type && fs_below(q,fs[i].path)) { errno=ENOTEMPTY; return -1; } }
  if(g>=0 && fs[g].type!=F_DIR && fs[f].type==F_DIR) { errno=ENOTDIR; return -1; }
  if(fs_step()) return -1;
  if(g>=0) fs[g].type=F_NONE;
  n=fs_len(p);
  for(i=0;i<nfs;i++) if(fs[i].type && (i==f || fs_below(p,fs[i].path)))
  { fs_cp(t,q); j=fs_len(t); fs_cp(t+j,fs[i].path+n); fs_cp(fs[i].path,t); }
  return 0; }
