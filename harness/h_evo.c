/* time integrators: order of accuracy for any right hand side, and what evolve does around them */
#include "sgrid.h"
#include "main.h"
#include "MemoryMan.h"
#include "evolve.h"
#include "vh.h"
#include <string.h>
#include <math.h>
extern int npdbmax, sgrid_restarts, nvdb;
int sgrid_evolve(void); int checkpoint(tGrid *g);
tBox *alloc_box(tGrid *g, int b, int n1, int n2, int n3);
static int same(const char *a, const char *b) { int i=0; while(a[i] && a[i]==b[i]) i++; return a[i]==b[i]; }
static int pick(int k, int lo, int hi) { int r=in_i(k,lo,hi), i; for(i=lo;i<hi;i++) if(r==i) return i; return hi; }
static struct { char *m, *rk; int p; } M[]={ {"icn","rk4",2}, {"euler","rk4",1}, {"rk","euler",1}, {"rk","rk1",1}, {"rk","rk2",2}, {"rk","rk2a",2}, {"rk","midpoint",2}, {"rk","rk3",3}, {"rk","rk3a",3}, {"rk","rk3b",3}, {"rk","rk4",4}, {"rk","rk4a",4}, {"rk","rk5",5} };
/* right hand side of the system: each variable is the product of up to four others (-1: none, -2: time): all trees with up to 5 nodes */
#define NY 22
static int F[NY][4]={ {-1,-1,-1,-1}, {0,-1,-1,-1}, {1,-1,-1,-1}, {0,0,-1,-1}, {2,-1,-1,-1}, {3,-1,-1,-1}, {0,1,-1,-1}, {0,0,0,-1}, {4,-1,-1,-1}, {5,-1,-1,-1}, {6,-1,-1,-1}, {7,-1,-1,-1}, {0,2,-1,-1}, {0,3,-1,-1}, {1,1,-1,-1}, {0,0,1,-1}, {0,0,0,0},
 {-2,-1,-1,-1}, {-2,-2,-2,-1}, {-2,0,-1,-1}, {18,-2,-1,-1}, {19,0,-1,-1} };
static double K[NY];
static tVarList *lastu; static int nrhs, algon, nalg;
static void rhs(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
{ tGrid *g=ucur->grid; int b, i, v, q; nrhs++;
  v_true("lists_of_same_length", unew->n==ucur->n && upre->n==ucur->n && unew->grid==g && upre->grid==g);
  v_true("result_is_not_the_argument", unew!=ucur && (unew!=upre) && unew->index[0]!=ucur->index[0] && (c==0 || unew->index[0]!=upre->index[0]));
  for(b=0;b<g->nboxes;b++) for(i=0;i<g->box[b]->nnodes;i++)
  { double **d=g->box[b]->v;
    if(algon) v_true("conditions_hold_when_the_right_hand_side_is_computed", d[ucur->index[1]][i]==2*d[ucur->index[0]][i]);
    for(v=0;v<ucur->n;v++)
    { double f=K[v]; for(q=0;q<4;q++) if(F[v][q]>=0) f*=d[ucur->index[F[v][q]]][i]; else if(F[v][q]==-2) f*=ucur->time;
      d[unew->index[v]][i]= c==0 ? f : d[upre->index[v]][i]+c*f; } } }
static void alg(tVarList *unew, tVarList *upre)
{ tGrid *g=unew->grid; int b, i; nalg++;
  for(b=0;b<g->nboxes;b++) for(i=0;i<g->box[b]->nnodes;i++)
  { if(upre->n>2) v_true("condition_gets_old_values", g->box[b]->v[upre->index[2]][i]==g->box[b]->v[lastu->index[2]][i]);
    g->box[b]->v[unew->index[1]][i]=2*g->box[b]->v[unew->index[0]][i]; } }
static void start(int m)
{ npdbmax=60; AddPar("storage_verbose","no","d"); AddPar("physics","x","d"); AddPar("evolution_method",M[m].m,"d"); AddPar("evolution_method_rk",M[m].rk,"d"); sgrid_evolve(); }
static tVarList *vars(int nv, int nb, int np, tGrid **gp)
{ tGrid *g; int b, v; char n[4]="y00"; tVarList *u;
  AddVar("before","","d");
  for(v=0;v<nv;v++) { n[1]='0'+v/10; n[2]='0'+v%10; AddVar(n,"","d"); }
  AddVar("after","i","d");
  g=alloc_grid(nb,nvdb); for(b=0;b<nb;b++) alloc_box(g,b,np,1,1);
  u=vlalloc(g); for(v=0;v<nv;v++) { n[1]='0'+v/10; n[2]='0'+v%10; vlpush(u,Ind(n)); } enablevarlist(u);
  enablevar(g,Ind("before")); enablevar(g,Ind("afterx"));
  *gp=g; return u; }
/* c[0]: method, c[1]: number of steps, c[2]: number of variables */
void h_order(int *c)
{ tGrid *g; tVarList *u; int v, m, q, p=M[c[0]].p, nv=c[2], s; double dt=in_d(1,0.01,0.5), t=in_d(2,-1,2), Y[NY+1][8], y0[NY], h; static char *st[2]={"yes","no"};
  start(c[0]); u=vars(nv,1,1,&g); v_trunc(1,p);
  Sets("evolve_persist",st[c[1]%2]);
  for(v=0;v<nv;v++) { y0[v]= v<4 ? in_d(10+v,-1,1) : 0.25*(v%3); g->box[0]->v[u->index[v]][0]=y0[v]; K[v]= v==0 ? in_d(3,0.5,1.5) : v%4==1 ? -0.5 : 1; }
  evolve_vlregister(u); evolve_rhsregister(rhs);
  g->dt=dt; g->time=t; g->iteration=0;
  for(s=0;s<c[1];s++) { evolve(g); g->iteration++; g->time=t+g->iteration*dt; }
  v_true("right_hand_side_used", nrhs>=c[1]*(p<4 ? p : 4));
  /* exact solution: Taylor series */
  for(v=0;v<nv;v++) Y[v][0]=y0[v];
  for(m=0;m<p;m++) for(v=0;v<nv;v++)
  { double a[8], x[8]; int i, j; for(i=0;i<=m;i++) a[i]=0; a[0]=K[v];
    for(q=0;q<4;q++) if(F[v][q]!=-1)
    { for(i=0;i<=m;i++) { x[i]=0; for(j=0;j<=i;j++) x[i]+=a[j]*(F[v][q]>=0 ? Y[F[v][q]][i-j] : i==j ? t : i-j==1 ? 1 : 0); }
      for(i=0;i<=m;i++) a[i]=x[i]; }
    Y[v][m+1]=a[m]/(m+1); }
  h=c[1]*dt;
  for(v=0;v<nv;v++)
  { double e=0; for(m=p;m>=0;m--) e=e*h+Y[v][m];
    v_series("order", g->box[0]->v[u->index[v]][0], e, 1, p); }
  if(c[0]!=1 && strcmp(M[c[0]].rk,"rk1") && strcmp(M[c[0]].rk,"euler")) v_series("time", u->time, t+h, 1, 1);
  v_reach("end"); }
/* what evolve does around a method: storage, earlier values, conditions, change; c[0]: method, c[1]: method of a later run or -1, c[2]: conditions */
void h_evolve(int *c)
{ tGrid *g; tVarList *u, *up, *upp; int run, b, i, v, s, nv, nb=2, dbg=0; double old[2][3][3], dt; char *n;
  start(c[0]);
  for(run=0;run<2;run++)
  { int m=c[run]; if(m<0) break;
    nv= run ? 2 : 3; dt=in_d(1+run,0.01,0.5);
    Sets("evolution_method",M[m].m); Sets("evolution_method_rk",M[m].rk);
    Sets("evolve_persist",pick(3+run,0,1)?"yes":"no"); Sets("evolve_compute_change", c[2] ? "y01 y00" : "y01");
    if(m==1) { dbg=pick(5+run,0,1); Sets("evolve_euler_debug",dbg?"yes":"no"); } else dbg=0;
    sgrid_restarts=run;
    u=vars(3,nb,2,&g); u->n=nv; lastu=u;
    K[0]=1; K[1]=0.5; K[2]=0.25; nrhs=nalg=0;
    for(b=0;b<nb;b++) { for(v=0;v<nv;v++) for(i=0;i<2;i++) g->box[b]->v[u->index[v]][i]=in_d(100+100*run+20*b+4*v+i,-1,1); for(i=0;i<2;i++) { g->box[b]->v[Ind("before")][i]=7; g->box[b]->v[Ind("afterz")][i]=8; } }
    if(c[2]) { algon=1; for(b=0;b<nb;b++) for(i=0;i<2;i++) g->box[b]->v[u->index[1]][i]=2*g->box[b]->v[u->index[0]][i]; evolve_algebraicConditionsregister(alg); }
    evolve_vlregister(u); evolve_rhsregister(rhs); g->dt=dt; g->time=0; g->iteration= c[3];
    for(s=0;s<2;s++)
    { tVarList *w=0; lastu=0;
      for(b=0;b<nb;b++) for(v=0;v<nv;v++) for(i=0;i<2;i++) old[b][v][i]=g->box[b]->v[u->index[v]][i];
      if(c[2]) { /* old values for the conditions */ w=vlalloc(g); vlpush(w,Ind("before")); vlpush(w,Ind("before")); vlpush(w,Ind("before")); lastu=w; for(b=0;b<nb;b++) for(i=0;i<2;i++) g->box[b]->v[Ind("before")][i]= nv>2 ? old[b][2][i] : 0; }
      evolve(g);
      evolve_vlretrieve(&u,&up,&upp);
      v_true("evolved_list_kept", u->n==nv && u->grid==g && up!=0 && up->n==nv && up->grid==g && upp==0);
      if(c[2]) v_true("conditions_set", nalg>0);
      for(b=0;b<nb;b++)
      { double **d=g->box[b]->v;
        v_true("storage_as_asked", (d[up->index[0]]!=0)==(int)Getv("evolve_persist","yes") && (d[up->index[nv-1]]!=0)==(int)Getv("evolve_persist","yes"));
        for(v=0;v<nv;v++) { n=VarName(up->index[v]); v_true("name_of_old_values", n[0]=='y' && n[1]=='0' && n[2]=='0'+v && n[3]=='_' && n[4]=='p' && n[5]==0); }
        for(v=0;v<nv;v++) for(i=0;i<2;i++) { if(d[up->index[v]]) v_true("old_values_kept", d[up->index[v]][i]==old[b][v][i]); }
        for(i=0;i<2;i++) { v_check("change", d[Ind("y01_change")][i], d[u->index[1]][i]-old[b][1][i], 1e-14); if(c[2]) { v_check("change_first", d[Ind("y00_change")][i], d[u->index[0]][i]-old[b][0][i], 1e-14); v_true("conditions_hold_after_the_step", d[u->index[1]][i]==2*d[u->index[0]][i]); }
          v_true("others_unchanged", (c[2] || d[Ind("before")][i]==7) && d[Ind("afterz")][i]==8);
          if(dbg) v_check("debug_gives_right_hand_side", d[u->index[0]][i], 1, 0);
          else v_check("constant_right_hand_side", d[u->index[0]][i], old[b][0][i]+dt, 1e-13); } }
      v_true("no_other_change_computed", c[2] || IndLax("y00_change")<0);
      g->iteration++; g->time=g->iteration*dt; }
    if(c[2]) v_true("conditions_after_each_stage", nalg>=nrhs); }
  v_reach("end"); }
static void do_ev(void *a) { evolve(a); }
/* no right hand side: somebody else evolves; no variables or unknown methods are fatal */
void h_evfail(int *c)
{ tGrid *g; tVarList *u; int k=pick(0,0,3);
  start(0); u=vars(2,1,1,&g); g->dt=0.1; g->box[0]->v[u->index[0]][0]=in_d(1,-1,1);
  if(k>0) evolve_rhsregister(rhs);
  if(k!=1) evolve_vlregister(u);
  if(k==2) Sets("evolution_method","icm");
  if(k==3) { Sets("evolution_method","rk"); Sets("evolution_method_rk","rk6"); }
  v_true("exits", v_call_exits(do_ev,g)==(k>0));
  if(k==0) v_true("nothing_done", nrhs==0 && IndLax("y00_p")<0);
  v_reach("end"); }

/* dissipation: with derivatives along the axes replaced by d_k u[i] = D[k]*u[i] + E[k]*u[(i+1)%n] */
void addDissipation(tVarList *vlu_n, tVarList *vlu_p, double dt, tVarList *vlu_c);
static double D[3]={2,3,5}, E[3]={1,-1,0.5}; static int ncart;
void cart_partials(tBox *box, double *u, double *u1, double *u2, double *u3)
{ int i, n=box->nnodes; double v[8]; ncart++; for(i=0;i<n;i++) v[i]=u[i];
  for(i=0;i<n;i++) { u1[i]=D[0]*v[i]+E[0]*v[(i+1)%n]; u2[i]=D[1]*v[i]+E[1]*v[(i+1)%n]; u3[i]=D[2]*v[i]+E[2]*v[(i+1)%n]; } }
void h_diss(int *c)
{ tGrid *g; tVarList *u, *un, *up; int b, v, i, k, n=3; double o[2][2][3], r[2][2][3], fac=in_d(1,-0.5,2), dt=in_d(2,-1,1), gdt=in_d(3,0.01,1), ord, L; static char *os[3]={"0","1","3"}; int q=pick(4,0,2), z=pick(5,0,1);
  start(0); AddVar("ADMvars_dgxx","i","d"); AddVar("ADMvars_ddgxx","(ij)","d");
  u=vars(2,2,n,&g); enablevar(g,Ind("ADMvars_dgxxx")); enablevar(g,Ind("ADMvars_ddgxxxx")); un=AddDuplicateEnable(u,"_n"); up=AddDuplicateEnable(u,"_p");
  Setd("evolve_DissipationFactor",fac); Sets("evolve_Dissipation_dt_Order",os[q]); ord= q==0 ? 1 : q==1 ? gdt : gdt*gdt*gdt;
  g->dt=gdt; g->iteration=pick(6,0,1); if(z) dt=0; else v_assume((dt<-0.01)|(dt>0.01));
  for(b=0;b<2;b++) for(v=0;v<2;v++) for(i=0;i<n;i++) { o[b][v][i]=g->box[b]->v[u->index[v]][i]=in_d(10+20*b+4*v+i,-1,1); r[b][v][i]=g->box[b]->v[un->index[v]][i]=in_d(100+20*b+4*v+i,-1,1); g->box[b]->v[up->index[v]][i]=9; }
  addDissipation(un,up,dt,u);
  for(b=0;b<2;b++) for(v=0;v<2;v++) for(i=0;i<n;i++)
  { L=0; for(k=0;k<3;k++) L+=D[k]*D[k]*o[b][v][i]+2*D[k]*E[k]*o[b][v][(i+1)%n]+E[k]*E[k]*o[b][v][(i+2)%n];
    v_check("dissipation_term", g->box[b]->v[un->index[v]][i], fac<=0 ? r[b][v][i] : r[b][v][i]+(z?1:dt)*fac*ord*L, 1e-9);
    v_true("variables_unchanged", g->box[b]->v[u->index[v]][i]==o[b][v][i] && g->box[b]->v[up->index[v]][i]==9); }
  v_reach("end"); }
