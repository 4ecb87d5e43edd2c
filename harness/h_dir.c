/* removal of directories and rotation of output directories in a model file system */
#define _GNU_SOURCE
#include "sgrid.h"
#include "main.h"
#include "vh.h"
#include "fsmodel.h"
#include <stdio.h>
#include <dlfcn.h>
int remove_dir(char *which_dir);
int make_output_directory(void);
extern int npdbmax;
int system(const char *c) { if(c) fs_ops+=100; return 1; }          /* no shell command is ever needed here */
static int copied;
int copy_file_into_dir(char *f, char *d)
{ char q[64]; int i; i=fs_lookup(d,1,q); v_true("parameter_file_copied_into_existing_directory", i>=0 && fs[i].type==F_DIR && fs_eq(f,"run.par"));
  if(fs_step()) return -1;
  i=fs_len(q); q[i]='/'; fs_cp(q+i+1,"run.par"); fs_add(q,F_FILE,0); copied++; return 0; }
static char dummy[8];
FILE *fopen(const char *p, const char *m)
{ char q[64]; int f;
  if(strstr(p,"checkpoint.")) { f=fs_lookup(p,1,q); return f>=0 && fs[f].type==F_FILE ? (FILE*)dummy : 0; }
#ifdef SYMEX
  return 0;
#else
  { static FILE *(*r)(const char*,const char*); if(!r) r=dlsym(RTLD_NEXT,"fopen"); return r(p,m); }
#endif
}
int fclose(FILE *f)
{ if(f==(FILE*)dummy) return 0;
#ifdef SYMEX
  return 0;
#else
  { static int (*r)(FILE*); if(!r) r=dlsym(RTLD_NEXT,"fclose"); return r(f); }
#endif
}
/* a directory with arbitrary contents next to others */
static void tree(const char *d, int depth, int k0, int nent)
{ int i, t; char p[64]; static char *nm[3]={"f","sub","z"};
  for(i=0;i<nent;i++)
  { int n=fs_len(d); t=in_i(k0+i,0,4); fs_cp(p,d); p[n]='/'; fs_cp(p+n+1,nm[i]);
    if(t==0) continue;
    if(t==1) fs_add(p,F_FILE,0);
    else if(t==2) fs_add(p,F_LINK,"/w/keep");
    else if(t==3) fs_add(p,F_LINK,"/w/keep/data");
    else { fs_add(p,F_DIR,0); if(depth>0) tree(p,depth-1,k0+10*(i+1),nent); } } }
static fnode before[40]; static int nbefore;
static void save(void) { int i; nbefore=nfs; for(i=0;i<nfs;i++) before[i]=fs[i]; }
static void outside_unchanged(const char *d)
{ int i; for(i=0;i<nbefore;i++) if(!fs_eq(before[i].path,d) && !fs_below(d,before[i].path))
    v_true("nothing_outside_is_removed", fs[i].type==before[i].type && fs_eq(fs[i].path,before[i].path)); }
void h_rmdir(int *c)
{ static char *arg[5]={"run_previous","/w/run_previous","./run_previous","sub/run_previous","/x/run_previous"};
  static char *abs[5]={"/w/run_previous","/w/run_previous","/w/run_previous","/w/sub/run_previous","/x/run_previous"};
  char *a=arg[c[0]], *d=abs[c[0]]; int i, r, n=0, top=in_i(0,c[3],2);
  fs_add("/w",F_DIR,0); fs_add("/x",F_DIR,0); fs_add("/w/sub",F_DIR,0);
  fs_add("/w/keep",F_DIR,0); fs_add("/w/keep/data",F_FILE,0); fs_add("/w/run_previous2",F_DIR,0); fs_add("/w/run_previous2/f",F_FILE,0); fs_add("/w/f",F_FILE,0); fs_add("/w/run",F_DIR,0);
  fs_add("/w/run/f",F_FILE,0);
  if(top==2) { fs_add(d,F_DIR,0); tree(d,c[1],10,c[2]); }
  else if(top==1) fs_add(d,F_LINK,"/w/keep");
  save();
  if(c[4]) fs_fail=in_i(1,0,3);
  r=remove_dir(a);
  outside_unchanged(d);
  for(i=0;i<nfs;i++) if(fs[i].type && (fs_eq(fs[i].path,d) || fs_below(d,fs[i].path))) n++;
  if(!c[4] || fs_ops<=fs_fail) { v_true("removed_completely", n==0); v_true("success_reported", r==0); }
  else v_true("failure_reported", r!=0);
  v_true("directories_closed", fs_open_dirs==0);
  v_reach("end"); }
/* rotation: outdir -> outdir_previous */
static void do_make(void *a) { make_output_directory(); }
void h_rotate(int *c)
{ static char *od[3]={"run","/w/run","d/run"}; static char *ad[3]={"/w/run","/w/run","/w/d/run"};
  char *o=od[c[0]], p[64], q[64], cp[64], cq[64], f1[64], f2[64]; int r, i, cur=in_i(0,0,2), prev=in_i(1,0,2), keep=in_i(2,0,2), ex, same=1, nck=0;
  npdbmax=9;
  AddPar("outdir",o,"d"); AddPar("parameterfile","run.par","d"); 
  if(keep==1) AddPar("sgrid_options","--keep_previous","d"); else if(keep==2) AddPar("sgrid_options","--other","d");
  fs_add("/w",F_DIR,0); fs_add("/w/d",F_DIR,0); fs_add("/w/run.par",F_FILE,0);
  fs_cp(p,ad[c[0]]); fs_cp(q,p); fs_cp(q+fs_len(q),"_previous"); fs_cp(cp,p); fs_cp(cp+fs_len(cp),"/checkpoint.0"); fs_cp(cq,q); fs_cp(cq+fs_len(cq),"/checkpoint.0");
  fs_cp(f1,p); fs_cp(f1+fs_len(f1),"/curfile"); fs_cp(f2,q); fs_cp(f2+fs_len(f2),"/prevfile");
  if(cur) { fs_add(p,F_DIR,0); fs_add(f1,F_FILE,0); if(cur==2) fs_add(cp,F_FILE,0); }
  if(prev) { fs_add(q,F_DIR,0); fs_add(f2,F_FILE,0); if(prev==2) fs_add(cq,F_FILE,0); }
  save();
  if(c[1]==1) fs_crash=in_i(3,0,8);
  ex=v_call_exits(do_make,0);
  v_true("no_shell_command", fs_ops<100);
  if(cur==2 || prev==2)
  { for(i=0;i<nfs;i++) if(fs[i].type && (fs_eq(fs[i].path,cp) || fs_eq(fs[i].path,cq))) nck++;
    v_true("a_checkpoint_survives", nck>0); }
  if(cur) { char f3[64]; fs_cp(f3,q); fs_cp(f3+fs_len(f3),"/curfile"); v_true("newest_output_survives", fs_find(f1)>=0 || fs_find(f3)>=0); }
  if(c[1]==1 && fs_ops>fs_crash) { v_reach("end"); return; }         /* stopped in the middle */
  for(i=0;i<nbefore;i++) if(before[i].type!=fs[i].type || !fs_eq(before[i].path,fs[i].path)) same=0;
  if(keep!=1 && prev==2 && cur!=2)
  { v_true("refuses_to_lose_checkpoint", ex); v_true("nothing_touched", same); v_reach("end"); return; }
  v_true("no_error", !ex);
  v_true("parameter_file_copied", copied==1);
  if(keep==1) v_true("keep_previous_keeps_all", same);
  else
  { v_true("previous_is_old_current", (fs_find(q)>=0)==(cur>0));
    fs_cp(f2,q); fs_cp(f2+fs_len(f2),"/curfile"); v_true("old_output_in_previous", (fs_find(f2)>=0)==(cur>0));
    v_true("old_checkpoint_in_previous", (fs_find(cq)>=0)==(cur==2));
    v_true("new_directory_empty", fs_find(f1)<0 && fs_find(cp)<0); }
  i=fs_find(p); v_true("directory_exists", i>=0 && fs[i].type==F_DIR);
  v_reach("end"); }
