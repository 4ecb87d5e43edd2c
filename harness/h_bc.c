/* boundary conditions of evolved variables */
#include "vgrid.h"
#include "main.h"
#include "MemoryMan.h"
int initialize_BoundaryPointLists(tGrid *grid); int free_BoundaryPointLists(tGrid *grid); void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur);
extern int npdbmax, nvdb;
tBox *alloc_box(tGrid *g, int b, int n1, int n2, int n3);
static int pick(int k, int lo, int hi) { int r=in_i(k,lo,hi), i; for(i=lo;i<hi;i++) if(r==i) return i; return hi; }
static int count(tPointList *p, int b, int ijk) { int i, r=0; for(i=0;i<p->npoints[b];i++) if(p->point[b][i]==ijk) r++; return r; }
/* c[0]: which kind of boundary */
static char *K[]={"radiative","radiative_analytic","constant","constantExcision","simpleExcision","VonNeumannExcision","selectedconstantExcision","selectedVonNeumannExcision",""};
static char *C[]={"Cartesian","SphericalDF","compactSphericalDF","Spherical","Spherical2","Spherical3","PolarCE"};
static char *B[]={"ChebExtrema","ChebZeros","Fourier","fd2_onesided","fd2_periodic"};
/* points in the lists; c[0]: kind, c[1] another kind or -1, c[2]: 0 all coordinates, 1 all bases, 2 both */
void h_lists(int *c)
{ tGrid *g; int b, d, i, j, k, q, n[3][3]={{3,2,2},{2,3,3},{2,2,4}}, bs[3], cs[3], twice; char s[40], par[80]; tPointList *L[5];
  npdbmax=60; AddPar("storage_verbose","no","d"); snprintf(par,79,"%s %s",K[c[0]],c[1]>=0?K[c[1]]:""); AddPar("boundary",par,"d");
  for(d=0;d<3;d++) bs[d]= c[2] ? pick(10+d,0,4) : pick(10+d,0,1)*2;
  for(b=0;b<3;b++) { cs[b]= b==1 ? 1 : c[2]==1 ? (c[0]+b)%5 : pick(20+b,0,b==0?6:2); snprintf(s,39,"box%d_Coordinates",b); AddPar(s,C[cs[b]],"d"); for(d=0;d<3;d++) { snprintf(s,39,"box%d_basis%d",b,d+1); AddPar(s,B[b==1?bs[d]:b==0?bs[(d+1)%3]:0],"d"); } }
  g=alloc_grid(3,0); for(b=0;b<3;b++) alloc_box(g,b,n[b][0],n[b][1],n[b][2]);
  twice=pick(30,0,1);
  initialize_BoundaryPointLists(g); if(twice) initialize_BoundaryPointLists(g);
  L[0]=boxBoundaryPointList; L[1]=radiativeBoundaryPointList; L[2]=constantBoundaryPointList; L[3]=selectedBoundaryPointList; L[4]=ExcisionBoundaryPointList;
  for(b=0;b<3;b++) for(k=0;k<n[b][2];k++) for(j=0;j<n[b][1];j++) for(i=0;i<n[b][0];i++)
  { int w[5]={0,0,0,0,0}, ijk=i+n[b][0]*(j+n[b][1]*k), x[3], at[3], any=0, sph= cs[b]>=1 && cs[b]<=5, m; x[0]=i; x[1]=j; x[2]=k;
    for(d=0;d<3;d++) { int bas= b==1 ? bs[d] : b==0 ? bs[(d+1)%3] : 0; at[d]= x[d]==0 || x[d]==n[b][d]-1; if(at[d]) any=1; if(at[d] && bas!=2 && bas!=4) w[0]=1; }
    for(m=0;m<2;m++) if(c[m]>=0) { q=c[m];
      if(q<=2 && b==2 && (sph ? i==n[b][0]-1 : any)) w[q==2 ? 2 : 1]=1;
      if(q>=3 && q<=7 && b==0 && sph && i==0) w[q==3 ? 2 : q<=5 ? 4 : 3]=1; }
    for(q=0;q<5;q++) v_true(w[q] ? "boundary_point_in_list" : "other_point_not_in_list", count(L[q],b,ijk)==w[q] || (w[q] && count(L[q],b,ijk)>0)); }
  for(q=0;q<5;q++) v_true("list_belongs_to_grid", L[q]->grid==g);
  free_BoundaryPointLists(g);
  v_true("lists_freed", !radiativeBoundaryPointList && !constantBoundaryPointList && !selectedBoundaryPointList && !ExcisionBoundaryPointList && !boxBoundaryPointList);
  v_reach("end"); }
/* derivatives along the axes are replaced by any linear function */
static double D[3]={2,3,5}, E[3]={1,-1,0.5};
void cart_partials(tBox *box, double *u, double *u1, double *u2, double *u3)
{ int i, n=box->nnodes; double v[16]; for(i=0;i<n;i++) v[i]=u[i];
  for(i=0;i<n;i++) { u1[i]=D[0]*v[i]+E[0]*v[(i+1)%n]; u2[i]=D[1]*v[i]+E[1]*v[(i+1)%n]; u3[i]=D[2]*v[i]+E[2]*v[(i+1)%n]; } }
/* what set_boundary does at all points; c[0]: kind, c[1]: unew are the time derivatives of rk */
#define NB 2
#define NP 3
void h_set(int *c)
{ tGrid *g; tVarList *u, *un, *up; int b, v, i, k, q=c[0], rk=c[1], on[NB][NP], konst; double o[NB][3][NP], pn[NB][3][NP], pp[NB][3][NP], x[NB][NP][3], cc, far[3], sp[3], t0=0, ini[NB][3][NP];
  npdbmax=60; AddPar("storage_verbose","no","d"); AddPar("boundary",K[q],"d"); konst=pick(2,0,3);
  { static char *kp[4]={"","u1","u1 u2","xu1 u_r"}; AddPar("boundary_radconstant",kp[konst],"d"); AddPar("boundary_selectedExcisionVars",kp[konst],"d"); }
  AddVar("x","","d"); AddVar("y","","d"); AddVar("z","","d"); AddVar("temp1","","d"); AddVar("temp2","","d"); AddVar("temp3","","d"); AddVar("ADMvars_dgxx","i","d");
  AddVar("u0","","d"); AddVar("u1","","d"); AddVar("u2","","d");
  for(v=0;v<3;v++) { char s[3]="u0"; s[1]+=v; far[v]=in_d(20+v,-1,2); sp[v]=in_d(23+v,0,2); VarNameSetBoundaryInfo(s,far[v],0,sp[v]); }
  g=alloc_grid(NB,nvdb); for(b=0;b<NB;b++) alloc_box(g,b,NP,1,1);
  u=vlalloc(g); for(v=0;v<3;v++) { char s[3]="u0"; s[1]+=v; vlpush(u,Ind(s)); } enablevarlist(u); for(i=0;i<6;i++) enablevar(g,i); enablevar(g,Ind("ADMvars_dgxxx"));
  up=AddDuplicateEnable(u,"_p"); un= rk ? AddDuplicateEnable(u,"_r") : u; if(!rk) { u=AddDuplicateEnable(un,"_q"); }
  cc= rk ? 0 : in_d(1,0.01,1);
  for(b=0;b<NB;b++) for(i=0;i<NP;i++) { for(k=0;k<3;k++) x[b][i][k]=g->box[b]->v[k][i]=in_d(30+10*b+3*i+k,0.5,3); for(v=0;v<3;v++) { o[b][v][i]=g->box[b]->v[u->index[v]][i]=in_d(100+20*b+4*v+i,-1,1); pn[b][v][i]=g->box[b]->v[un->index[v]][i]=in_d(200+20*b+4*v+i,-1,1); pp[b][v][i]=g->box[b]->v[up->index[v]][i]=in_d(300+20*b+4*v+i,-1,1); } }
  /* any points */
  radiativeBoundaryPointList=AllocatePointList(g); constantBoundaryPointList=AllocatePointList(g); selectedBoundaryPointList=AllocatePointList(g); ExcisionBoundaryPointList=AllocatePointList(g);
  for(b=0;b<NB;b++) for(i=0;i<NP;i++) { on[b][i]= q==4 ? (b==0 && i==0 ? pick(3,0,1) : 0) : b==0 ? pick(4+i,0,1) : i==2; if(on[b][i]) AddToPointList(q<2 ? radiativeBoundaryPointList : q<4 ? constantBoundaryPointList : q==4 ? ExcisionBoundaryPointList : selectedBoundaryPointList,b,i); }
  u->time=up->time=un->time=t0;
  if(q==1) { /* the values at time zero are kept as analytic solution */
    set_boundary(un,up,cc,u);
    for(b=0;b<NB;b++) for(i=0;i<NP;i++) for(v=0;v<3;v++) { ini[b][v][i]=pp[b][v][i]; pp[b][v][i]=g->box[b]->v[up->index[v]][i]=in_d(400+20*b+4*v+i,-1,1); g->box[b]->v[un->index[v]][i]=pn[b][v][i]; }
    u->time=up->time=1; }
  set_boundary(un,up,cc,u);
  for(b=0;b<NB;b++) for(i=0;i<NP;i++) for(v=0;v<3;v++)
  { double *N=g->box[b]->v[un->index[v]], *O=g->box[b]->v[u->index[v]], *P=g->box[b]->v[up->index[v]]; int sel= (v==1 && (konst==1 || konst==2)) || (v==2 && konst==2);
    v_true("operands_unchanged", O[i]==o[b][v][i] && P[i]==pp[b][v][i]);
    if(!on[b][i] || q==8) { v_true("other_points_unchanged", N[i]==pn[b][v][i]); continue; }
    if(q<2)
    { double r2=0, adv=0, r, rhs, w[3]; int i1=(i+1)%NP; for(k=0;k<3;k++) r2+=x[b][i][k]*x[b][i][k]; r=sqrt(r2);
      for(k=0;k<3;k++) { w[k]=D[k]*o[b][v][i]+E[k]*o[b][v][i1]; if(q==1) w[k]-=D[k]*ini[b][v][i]+E[k]*ini[b][v][i1]; adv+=x[b][i][k]*w[k]; }
      rhs= sel ? 0 : -sp[v]*(o[b][v][i]-(q==1 ? ini[b][v][i] : far[v])+adv);
      if(rk) v_check("radiative_derivative", N[i]*r, rhs, 1e-9); else v_check("radiative_step", (N[i]-pp[b][v][i])*r, cc*rhs, 1e-9); }
    else if(q<4 || (q==6 && sel)) v_true("value_constant", N[i]==(rk ? 0 : pp[b][v][i]));
    else if(q==4) { if(rk) v_check("excision_copies_derivative", N[i], pn[b][v][1], 0); else v_check("excision_copies_change", N[i]-pp[b][v][i], pn[b][v][1]-pp[b][v][1], 1e-12); }
    else if(q==6) v_true("not_selected_unchanged", N[i]==pn[b][v][i]); }
  v_reach("end"); }
/* values and normal derivatives at a list of points; c[0]: direction, c[1]: basis in it, c[2]: left or right, c[3]: 0 function itself, 1 VonNeumannExcision, 2 selectedVonNeumannExcision */
void h_neumann(int *c)
{ tGrid *g; int d=c[0], n[3]={2,2,2}, i, b=0, bs[3]={0,0,0}, nn, i1, i2, m, on[16], no=0; double du, old[40], old2[8]; tPointList *PL; tBox *box; double *D1; tVarList *u;
  npdbmax=400; n[d-1]=4; bs[d-1]=c[1]; vg_start(2); vg_par("box0_TransformType1","x"); 
  vg_box(0,n[0],n[1],n[2],bs[0],bs[1],bs[2],"0","2","0","3","0","1"); vg_box(1,2,2,2,0,0,0,"0","1","0","1","0","1");
  vg_par("boundary", c[3]==1 ? "VonNeumannExcision" : c[3]==2 ? "selectedVonNeumannExcision" : ""); vg_par("boundary_selectedExcisionVars","b a");
  sgrid_main(); sgrid_MemoryMan(); sgrid_Spectral(); sgrid_Coordinates(); AddVar("a","","d"); AddVar("x_","","d"); AddVar("temp1","","d");
  init_FFTW3_plans(0); g=make_grid(0); enablevar(g,Ind("a")); enablevar(g,Ind("x_")); enablevar(g,Ind("temp1"));
  box=g->box[0]; nn=box->nnodes; du= c[3] ? 0 : in_d(1,-2,2);
  PL=AllocatePointList(g);
  for(i=0;i<nn;i++) { box->v[Ind("a")][i]=old[i]=in_d(10+i,-1,1); on[i]=0; }
  for(i=0;i<8;i++) { old2[i]=g->box[1]->v[Ind("a")][i]=in_d(60+i,-1,1); }
  /* some points of the plane */
  m= c[2] ? 3 : 0;
  for(i2=0;i2<2;i2++) for(i1=0;i1<2;i1++) if(in_i(2+i1+2*i2,0,1)) { i= d==1 ? m+4*(i1+2*i2) : d==2 ? i1+2*(m+4*i2) : i1+2*(i2+2*m); AddToPointList(PL,0,i); on[i]=1; no++; }
  if(c[3]==0 && c[2]==0) set_boundary_normalderiv_leftBound(PL,d,Ind("a"),du);
  else if(c[3]==0) set_boundary_normalderiv_rightBound(PL,d,Ind("a"),du);
  else { constantBoundaryPointList=PL; ExcisionBoundaryPointList=selectedBoundaryPointList=PL; u=vlalloc(g); vlpush(u,Ind("a")); vlpush(u,Ind("x_")); for(i=0;i<nn;i++) box->v[Ind("x_")][i]=i; set_boundary(u,u,in_i(6,0,1),u); }
  D1= d==1 ? box->D1 : d==2 ? box->D2 : box->D3;
  { double *e=malloc(nn*sizeof(double)); spec_Deriv1(box,d,box->v[Ind("a")],e);
    for(i=0;i<nn;i++) if(on[i]) v_check("normal_derivative", e[i], du, 1e-9); else v_true("other_points_unchanged", box->v[Ind("a")][i]==old[i]); }
  for(i=0;i<8;i++) v_true("other_boxes_unchanged", g->box[1]->v[Ind("a")][i]==old2[i]);
  set_boundary_value(PL,Ind("a"),in_d(7,-1,1));
  for(i=0;i<nn;i++) if(on[i]) v_true("value_set", box->v[Ind("a")][i]==in_d(7,-1,1)); else v_true("other_points_unchanged_by_value", box->v[Ind("a")][i]==old[i]);
  if(c[3]==2) for(i=0;i<nn;i++) v_true("not_selected_unchanged", box->v[Ind("x_")][i]==i);
  v_reach("end"); }
