/* the order in which things happen in a run: function bins, initialization, evolution loop, whole program */
#include "sgrid.h"
#include "main.h"
#include "vh.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
extern int npdbmax, sgrid_restarts;
int sgrid_c_main(int argc, char **argv);
static int pick(int k, int lo, int hi) { int r=in_i(k,lo,hi), i; for(i=lo;i<hi;i++) if(r==i) return i; return hi; }
static int same(const char *a, const char *b) { int i=0; while(a[i] && a[i]==b[i]) i++; return a[i]==b[i]; }
/* what happened */
enum { MAKE=100, FREE, CHECK, LIBS };
static struct { int what, who, it; tGrid *g; double t; } lg[400]; static int nlg;
static void note(int what, int who, tGrid *g)
{ lg[nlg].what=what; lg[nlg].who=who; lg[nlg].g=g; lg[nlg].it= g ? g->iteration : -1; lg[nlg].t= g ? g->time : 0; nlg++; }
#define F(b,k) static int f_##b##_##k(tGrid *g) { note(b,k,g); return 0; }
#define BINS(X) X(POST_PARAMETERS) X(PRE_GRID) X(POST_GRID) X(PRE_COORDINATES) X(COORDINATES) X(PRE_INITIALDATA) X(INITIALDATA) X(POST_INITIALDATA) X(PRE_EVOLVE) X(EVOLVE) X(PRE_POST_EVOLVE) X(POST_EVOLVE) X(ANALYZE) X(OUTPUT) X(POST_OUTPUT) X(PRE_FINALIZE_GRID) X(POST_FINALIZE_GRID) X(LAST)
#define DEF(b) F(b,0)
BINS(DEF)
F(EVOLVE,1) F(ANALYZE,1) F(INITIALDATA,1)
#define REG(b) AddFun(b,f_##b##_0,#b);
static void reg_all(void) { BINS(REG) AddFun(EVOLVE,f_EVOLVE_1,"second"); AddFun(INITIALDATA,f_INITIALDATA_1,"second"); }
static int pos;
static void expect(const char *name, int what, int who, tGrid *g, int it)
{ int k=pos++; v_true(name, k<nlg && lg[k].what==what && lg[k].who==who && lg[k].g==g && lg[k].it==it); }
/* checkpoint: what it may do to a run */
static int ck_mode, ck_at, ck_to, ck_n; static double ck_final;
int checkpoint(tGrid *g)
{ note(CHECK,0,g);
  if(ck_mode==1 && g->iteration==ck_at && ck_n++==0) { g->iteration=ck_to; g->time=ck_to*g->dt; Setd("finaltime",ck_final); }
  return 0; }

/* functions of a bin run in the order they were added */
F(LAST,1) F(LAST,2)
void h_fun(int *c)
{ int n=c[0], i, j, k, b, m[2][12], nm[2]={0,0}, op; tGrid *g=calloc(1,sizeof(tGrid));
  static int (*f[2][3])(tGrid*)={{f_EVOLVE_0,f_EVOLVE_1,f_PRE_EVOLVE_0},{f_LAST_0,f_LAST_1,f_LAST_2}};
  static int id[2][3]={{EVOLVE*4,EVOLVE*4+1,PRE_EVOLVE*4},{LAST*4,LAST*4+1,LAST*4+2}};
  sgrid_restarts=0;
  for(i=0;i<n;i++)
  { op=pick(10*i,0,8);
    if(op<6) { b=op/3; k=op%3; AddFun(b?LAST:EVOLVE,f[b][k],"some name"); if(!sgrid_restarts) m[b][nm[b]++]=id[b][k]; }
    else if(op==6) sgrid_restarts++;
    else if(op==7) { remove_all_Funs(); nm[0]=nm[1]=0; }
    else for(b=0;b<2;b++)
    { nlg=0; RunFun(b?LAST:EVOLVE,g); v_true("number_run", nlg==nm[b]);
      for(j=0;j<nm[b];j++) v_true("run_in_order", lg[j].what*4+lg[j].who==m[b][j] && lg[j].g==g); } }
  for(b=0;b<2;b++)
  { nlg=0; RunFun(b?LAST:EVOLVE,g); v_true("number_run", nlg==nm[b]);
    for(j=0;j<nm[b];j++) v_true("run_in_order", lg[j].what*4+lg[j].who==m[b][j] && lg[j].g==g); }
  nlg=0; RunFun(ANALYZE,g); v_true("other_bin_empty", nlg==0);
  remove_all_Funs();
  v_reach("end"); }

static int init_order(tGrid *g)
{ int it=0; const char *s="initialization_order";
  expect(s,PRE_COORDINATES,0,g,it); expect(s,COORDINATES,0,g,it); expect(s,PRE_INITIALDATA,0,g,it); expect(s,INITIALDATA,0,g,it); expect(s,INITIALDATA,1,g,it);
  expect(s,POST_INITIALDATA,0,g,it); expect(s,PRE_POST_EVOLVE,0,g,it); expect(s,POST_EVOLVE,0,g,it);
  expect(s,ANALYZE,0,g,it); expect(s,OUTPUT,0,g,it); expect(s,POST_OUTPUT,0,g,it); expect(s,CHECK,0,g,it); return 0; }
static void step_order(tGrid *g, int it)
{ const char *s="step_order";
  expect(s,PRE_EVOLVE,0,g,it); expect(s,EVOLVE,0,g,it); expect(s,EVOLVE,1,g,it); expect(s,PRE_POST_EVOLVE,0,g,it); expect(s,POST_EVOLVE,0,g,it);
  expect(s,ANALYZE,0,g,it+1); expect(s,OUTPUT,0,g,it+1); expect(s,POST_OUTPUT,0,g,it+1); expect(s,CHECK,0,g,it+1); }
static void setpars(int iters, double final)
{ npdbmax=20; AddPar("iterations","0","d"); AddPar("finaltime","0","d"); Seti("iterations",iters); Setd("finaltime",final); }
void h_init(int *c)
{ tGrid *g=calloc(1,sizeof(tGrid));
  reg_all(); nlg=0; initialize_grid(g); init_order(g); v_true("nothing_else", pos==nlg); v_reach("end"); }
/* number of steps and times */
void h_evolve(int *c)
{ tGrid *g=calloc(1,sizeof(tGrid)); int it=pick(0,-1,3), i, k, steps=c[0]; double dt=in_d(1,0.01,2), T= c[1] ? in_d(2,-1,6) : 0;
  reg_all();
  if(c[1]) { v_assume(T<=(steps+0.4)*dt); }
  g->dt=dt; setpars(it,T); nlg=0;
  evolve_grid(g);
  if(T>0) { v_le("final_time_reached", fabs(g->iteration*dt-T), 0.5*dt, 1e-9); }
  else v_true("number_of_iterations", g->iteration==(it>0?it:0));
  for(i=0;i<g->iteration;i++)
  { k=pos; step_order(g,i);
    for(;k<pos;k++) if(lg[k].it==i+1) v_check("time_is_iteration_times_dt", lg[k].t, (i+1)*dt, 1e-13); else v_check("time_during_step", lg[k].t, i*dt, 1e-13); }
  v_true("nothing_else", pos==nlg);
  if(g->iteration) v_check("time_at_end", g->time, g->iteration*dt, 1e-13);
  v_reach("end"); }
/* a checkpoint changes iteration and final time in the middle of a run */
void h_jump(int *c)
{ tGrid *g=calloc(1,sizeof(tGrid)); int i, n=pick(0,1,3), more=pick(3,0,2); double dt=in_d(1,0.01,2);
  reg_all(); ck_mode=1; ck_at=pick(1,0,2); ck_to=pick(2,1,5); ck_final=(ck_to+more)*dt;
  g->dt=dt; setpars(n,0); nlg=0;
  if(ck_at==0) checkpoint(g);
  pos=nlg;
  evolve_grid(g);
  if(ck_at>=n+1) { v_true("undisturbed", g->iteration==n); v_reach("end"); return; }
  if(ck_at>0) for(i=0;i<ck_at;i++) step_order(g,i);
  for(i=ck_to;i<ck_to+more;i++) step_order(g,i);
  v_true("nothing_else", pos==nlg);
  v_true("runs_until_new_final_time", g->iteration==ck_to+more);
  v_check("new_final_time", g->time, ck_final, 1e-12);
  v_reach("end"); }

/* whole program: modules, grids and file operations are stand-ins */
#define M(m) int sgrid_##m(void) { return 0; }
M(MemoryMan) M(ParManipulator) M(Spectral) M(boundary) M(output) M(evolve) M(NumberChecker) M(checkpoint) M(ADMvars) M(ModeComputer) M(s2kit) M(GridIterators) M(LinAlg) M(Poisson3) M(Poisson2) M(Poisson) M(BSSN)
M(Z4secondO) M(SingleBH) M(TestID) M(TestDerivs) M(ConvTest) M(ScalarWave) M(ScalarOnKerr) M(DV_CircSchwSource) M(numerics)
int sgrid_Coordinates(void) { note(LIBS,0,0); reg_all(); AddPar("left_over","none","d"); return 0; }
int system(const char *c) { return 1; }
int system2(char *a, char *b) { return 0; }
int system3(char *a, char *b, char *c) { return 0; }
int copy_file_into_dir(char *f, char *d) { return 0; }
static tGrid *grids[20]; static int ngrids; static const char *files[20]; static char left[20], val[20]; static int restarts[20];
tGrid *make_grid(int pr)
{ tGrid *g=calloc(1,sizeof(tGrid)); g->dt=Getd("dt"); g->iteration=0; grids[ngrids]=g;
  files[ngrids]=strdup(Gets("parameterfile")); left[ngrids]=Gets("left_over")[0]; val[ngrids]=GetsLax("p") ? Gets("p")[0] : 0; restarts[ngrids]=sgrid_restarts;
  ngrids++; note(MAKE,0,g); return g; }
void free_grid(tGrid *g) { note(FREE,0,g); }
static char buf[300];
static void put(const char *s) { int n=0; while(buf[n]) n++; while(*s) buf[n++]=*s++; buf[n]=0; }
void h_main(int *c)
{ char *argv[4]={"sgrid",0,0,0}; int n=c[0], i, j, k, nr=0, run[8], steps[3]={1,0,2}; int passes[3]={1,1,2}; static char *nm[3]={"r.par","s","t.par"}; static char *fn[3]={"r.par","s.par","t.par"};
  static char pv[3][2]={{'1',0},{0,0},{'x','y'}};
  npdbmax=30;
  v_file_put("r.par","dt = 0.5\niterations = 1\nleft_over = yes\np = 1\n");
  v_file_put("s.par","dt = 0.25\n");
  v_file_put("t.par","dt = 0.5\nfinaltime = 1\niterate_parameters = yes\np = x\niterate_parameter1 = p x y\n");
  if(n==0) { run[nr++]=k=pick(0,0,2); argv[1]=nm[k]; sgrid_c_main(2,argv); }
  else
  { buf[0]=0;
    for(i=0;i<n;i++)
    { k=pick(i,0,c[1]);
      if(k<3) { put(nm[k]); run[nr++]=k; }
      else if(k==3) put("# r.par"); 
      if(i<n-1 || pick(20,0,1)) put("\n"); }
    if(nr==0) { v_reach("end"); return; }
    v_file_put("args",buf);
    argv[1]="--argsfile"; argv[2]="args"; sgrid_c_main(3,argv); }
  for(i=k=0;i<nr;i++)
  { int r=run[i], m;
    expect("modules_initialized",LIBS,0,0,-1);
    for(j=0;j<passes[r];j++)
    { tGrid *g=grids[k]; const char *s="program_order";
      v_true("right_parameter_file", k<ngrids && same(files[k],fn[r]));
      v_true("no_parameters_left_over", left[k]==(r==0?'y':'n'));
      v_true("parameter_of_this_pass", val[k]==pv[r][j]);
      v_true("restarts_counted", restarts[k]==i);
      k++;
      expect(s,POST_PARAMETERS,0,0,-1); expect(s,PRE_GRID,0,0,-1); lg[pos].it=0; expect("grid_made_once",MAKE,0,g,0); expect(s,POST_GRID,0,g,0);
      init_order(g);
      for(m=0;m<steps[r];m++) step_order(g,m);
      expect(s,PRE_FINALIZE_GRID,0,g,steps[r]); expect("grid_freed_once",FREE,0,g,steps[r]); expect(s,POST_FINALIZE_GRID,0,0,-1); } }
  expect("last",LAST,0,0,-1);
  v_true("nothing_else", pos==nlg && ngrids==k);
  v_reach("end"); }
