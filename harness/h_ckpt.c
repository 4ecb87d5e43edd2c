/* checkpoints: what is written is restored exactly, and when */
#include "vgrid.h"
#include "main.h"
#include "evolve.h"
#include <sys/stat.h>
int sgrid_checkpoint(void); int sgrid_evolve(void); int checkpoint_checkifrestart(tGrid *g);
void checkpoint_write(tGrid *g); tVarList *checkpoint_varlist(tGrid *grid);
extern int npdbmax;
static int pick(int k, int lo, int hi) { int r=in_i(k,lo,hi), i; for(i=lo;i<hi;i++) if(r==i) return i; return hi; }
static int same(const char *a, const char *b) { int i=0; while(a[i] && a[i]==b[i]) i++; return a[i]==b[i]; }
/* stand-ins: directories are not touched */
static char cmd[9][3][40]; static int ncmd;
int system3(char *a, char *b, char *c)
{ if(same(a,"mv -f")) return rename(b,c);
  snprintf(cmd[ncmd][0],39,"%s",a); snprintf(cmd[ncmd][1],39,"%s",b); snprintf(cmd[ncmd][2],39,"%s",c); ncmd++; return 0; }
int system2(char *a, char *b) { return system3(a,b,""); }
static void rhs(tVarList *unew, tVarList *upre, double c, tVarList *ucur) { }
static tGrid *grid0(int nb, int all)
{ tGrid *g; int b; npdbmax=2000;
  vg_start(nb); for(b=0;b<nb;b++) vg_box(b,2+b,1,1,0,2,2,"0","1","0","1","0","1");
  vg_par("checkpoint","yes"); vg_par("checkpoint_variables",all?"all":"auto"); vg_par("evolution_method","icn");
  sgrid_checkpoint(); sgrid_evolve();
  AddVar("u","","d"); AddVar("b","i","d"); AddVar("w","","d"); AddVar("o","","d");
  g=vg_grid(0);
  return g; }
static double *val(tGrid *g, int b, const char *n) { return g->box[b]->v[Ind((char*)n)]; }
static char *vn[10]={"u","bx","by","bz","u_p","bx_p","by_p","bz_p","w","o"};
static void pars(int w)
{ static char *a[7]={"x","a b","a = b","",  "$variable", "1e-3"," c"}, *b[7]={"x","a  b","c","d e","","1e-4",""}; char n[4]="p0"; int i;
  for(i=0;i<7;i++) { n[1]='0'+i; AddPar(n,"start","d"); Sets(n,(w?b:a)[i]); } }
void h_restart(int *c)
{ tGrid *g; tVarList *u, *up, *upp; int b, i, k, nb=2, all=c[0], it=pick(0,0,c[3]?3:12), rit=c[1], keep=c[2], i1; double t=in_d(1,0,c[3]?0.7:1000), v[2][10][3], dT= c[3] ? in_d(2,0.5,1) : 0; char s[30];
  g=grid0(nb,all); mkdir("out",0700); mkdir("out_previous",0700);
  if(c[4]==1) vg_par("checkpoint_additional_variables","w"); if(c[4]==2) vg_par("checkpoint_additional_variables","w u ww");
  u=vlalloc(g); vlpush(u,Ind("u")); vlpush(u,Ind("bx")); enablevarlist(u); enablevar(g,Ind("w")); enablevar(g,Ind("o"));
  evolve_vlregister(u); evolve_rhsregister(rhs); evolve(g); evolve_vlretrieve(&u,&up,&upp);
  if(c[5]) vlpush(u,Ind("w"));
  if(c[6]) { disablevarlist(up); }
  /* the state of the first run */
  for(b=0;b<nb;b++) for(k=0;k<10;k++) if(val(g,b,vn[k])) for(i=0;i<2+b;i++) v[b][k][i]=val(g,b,vn[k])[i]=in_d(10+100*b+10*i+k,-5,5);
  g->time=t; g->iteration=it; Setd("dt",0.25); g->dt=0.25;
  pars(0); AddPar("gone","there","d"); AddPar("late","first","d"); Sets("iterations","77");
  if(keep) Sets("checkpoint_no_read_parlist","checkpoint finaltime iterations outdir parameterfile iterate_parameters checkpoint_no_read_parlist p2");
  if(c[3]) Setd("checkpoint_DeltaT",dT);
  AddPar("q","value","d");
  checkpoint_write(g);
  rename("out/checkpoint.0","out_previous/checkpoint.0");
  /* another run that was started from the beginning */
  for(b=0;b<nb;b++) for(k=0;k<10;k++) if(val(g,b,vn[k])) for(i=0;i<2+b;i++) val(g,b,vn[k])[i]=7;
  i1 = rit<0 ? pick(3,0,2) : pick(3,rit>0?rit-1:0,rit+1); g->iteration=i1; g->time=i1*0.25; pars(1); Sets("iterations","5"); Sets("late","second"); Sets("finaltime","9"); AddPar("only_now","kept","d");
  if(c[7]) Sets("checkpoint_previous","yes");
  if(c[7]==2) AddPar("sgrid_options","--keep_previous","d");
  Seti("checkpoint_restart_it",rit);
  checkpoint_checkifrestart(g);
  v_true("restart_found", same(Gets("checkpoint"),"restart"));
  ncmd=0;
  if(checkpoint(g)==0)
  { v_true("only_at_the_given_iteration", rit>=0 && i1!=rit);
    v_true("nothing_read", g->iteration==i1 && val(g,0,"u")[0]==7 && ncmd==0 && same(Gets("checkpoint"),"restart"));
    v_true("nothing_written", fopen("out/checkpoint.0","rb")==0 || 0);
    v_reach("end"); return; }
  v_true("at_the_given_iteration", rit<0 || i1==rit);
  v_true("iteration_restored", g->iteration==it);
  v_true("time_restored_exactly", g->time==t);
  for(b=0;b<nb;b++) for(k=0;k<10;k++) if(val(g,b,vn[k])) for(i=0;i<2+b;i++)
    if(k<8 || all || (k==8 && (c[4] || c[5]))) v_true("values_restored_exactly", val(g,b,vn[k])[i]==v[b][k][i]);
    else v_true("others_unchanged", val(g,b,vn[k])[i]==7);
  /* parameters */
  { static char *a[7]={"x","a b","a = b","",  "$variable", "1e-3"," c"}; char n[4]="p0";
    for(i=0;i<7;i++) { n[1]='0'+i; v_true("parameter_restored", same(Gets(n), i==2 && keep ? "c" : a[i])); } }
  v_true("late_parameter_restored", same(Gets("late"),"first")); v_true("new_parameter_kept", same(Gets("only_now"),"kept")); v_true("last_parameter", same(Gets("q"),"value"));
  v_true("checkpointing_continues", same(Gets("checkpoint"),"yes"));
  if(c[3]) { v_le("runs_on_for_DeltaT", fabs(Getd("finaltime")-(t+dT)), 0, 1e-10); v_le("iterations_for_DeltaT", fabs(Geti("iterations")*0.25-(t+dT)), 0.125, 1e-10); }
  else v_true("end_of_run_not_restored", same(Gets("finaltime"),"9") && same(Gets("iterations"),"5"));
  v_true("grid_unchanged", g->nboxes==nb && g->dt==0.25 && g->box[0]->nnodes==2 && g->box[1]->nnodes==3 && g->box[1]->bbox[1]==1);
  v_true("new_output_removed", ncmd>=2 && same(cmd[0][0],"rm -rf") && same(cmd[0][1],"out"));
  v_true("old_output_continued", same(cmd[ncmd-1][1],"out_previous") || same(cmd[ncmd-1][2],"out"));
  /* one restart only */
  ncmd=0; if(g->iteration==it && it>0) { v_true("no_second_restart", checkpoint(g)==0 && g->iteration==it); }
  v_reach("end"); }

/* bytes of the data may look like anything, also like text of the file */
void h_bytes(int *c)
{ tGrid *g; int i, n, b=c[0]; unsigned char s[24], *p; static char *t[2]={"$variable = w : box = 0 ","\n\n$END_variables\n$BEGIN "}; tVarList *u;
  g=grid0(1+b,0); mkdir("out",0700); mkdir("out_previous",0700); n=8*(2+b);
  u=vlalloc(g); vlpush(u,Ind("u")); vlpush(u,Ind("w")); enablevarlist(u); evolve_vlregister(u);
  g->iteration=3; g->time=1;
  p=(unsigned char *) val(g,b,"u"); for(i=0;i<n;i++) p[i]=s[i]= c[1] && (i<c[2] || i>=c[2]+c[3]) ? t[c[1]-1][i] : in_i(i,0,255);
  val(g,b,"w")[0]=5; val(g,0,"w")[1]=6;
  checkpoint_write(g); rename("out/checkpoint.0","out_previous/checkpoint.0");
  for(i=0;i<n;i++) p[i]=0; val(g,b,"w")[0]=val(g,0,"w")[1]=0;
  Sets("checkpoint","restart"); Sets("checkpoint_restart_it","-1"); g->iteration=0;
  v_true("restarted", checkpoint(g)==1 && g->iteration==3);
  p=(unsigned char *) val(g,b,"u");
  for(i=0;i<n;i++) v_true("bytes_restored_exactly", p[i]==s[i]);
  v_true("next_variable_restored", val(g,b,"w")[0]==5 && val(g,0,"w")[1]==6);
  v_reach("end"); }
