/* equations of the physics projects: function and linearization for the Poisson equations, right hand side and energy of the scalar wave; derivatives and conditions between boxes are stand-ins */
#include "sgrid.h"
#include "main.h"
#include "MemoryMan.h"
#include "vh.h"
#include <math.h>
extern int npdbmax, nvdb;
tBox *alloc_box(tGrid *g, int b, int n1, int n2, int n3);
int sgrid_Poisson2(void); int sgrid_Poisson3(void); int sgrid_ScalarWave(void);
void F_Poisson2(tVarList *a, tVarList *b, tVarList *c, tVarList *d); void J_Poisson2(tVarList *a, tVarList *b, tVarList *c, tVarList *d);
void F_Poisson3(tVarList *a, tVarList *b, tVarList *c, tVarList *d); void J_Poisson3(tVarList *a, tVarList *b, tVarList *c, tVarList *d);
void ScalarWave_evolve(tVarList *unew, tVarList *upre, double dt, tVarList *ucur); int ScalarWave_analyze(tGrid *g);
#define MP 12
static int iu[2], il[2], ia[2], ila[2], nd[8], wrong, NB, NP; static tVarList *U, *L, *FU, *JL, *UA, *LA;
/* derivatives of the fields and of their changes; the fields are u + e l */
static double D[2][2][9][MP], DL[2][2][9][MP], u0[2][2][MP], l0[2][2][MP], ee, W[MP];
static void D_(tBox *b, int i, int i1, int i2)
{ int v, k, p, lin=-1; for(v=0;v<2;v++) { if(i==iu[v]) lin=0; if(i==il[v]) lin=1; if(lin>=0) break; } 
  if(lin<0 || i1!=(lin?LA:UA)->index[10*v+1] || i2!=(lin?LA:UA)->index[10*v+4]) { wrong=1; return; }
  nd[lin]++; for(k=0;k<9;k++) for(p=0;p<b->nnodes;p++) b->v[(k<3?i1+k:i2+k-3)][p]= lin ? DL[b->b][v][k][p] : D[b->b][v][k][p]+ee*DL[b->b][v][k][p]; }
void D_and_DD_of_S(tBox *b, int i, int i1, int i2) { D_(b,i,i1,i2); }
static int nib;
void set_interbox_BCs_for_bface(int iFPsi, tBface *bf, int iPsi, int *idPsi)
{ tBox *b=bf->grid->box[bf->b]; int k, p, i, v, lin; lin=iPsi!=iu[0] && iPsi!=iu[1]; v= lin ? iPsi==il[1] : iPsi==iu[1]; nib++;
  if(iFPsi!=(lin?JL:FU)->index[v] || idPsi[1]!=(lin?LA:UA)->index[10*v+1] || idPsi[2]!=idPsi[1]+1 || idPsi[3]!=idPsi[1]+2) wrong=1;
  for(k=0;k<bf->fpts->npoints[b->b];k++) { p=bf->fpts->point[b->b][k]; b->v[iFPsi][p]=2*b->v[iPsi][p]; for(i=1;i<=3;i++) b->v[iFPsi][p]+=W[i]*b->v[idPsi[i]][p]; } }
static double X3[4][4]={ {1,2,2,3}, {-2,3,6,7}, {4,0,-3,5}, {-6,-2,-3,7} };
static void fillF(tGrid *g) { int b, v, p; for(b=0;b<NB;b++) for(v=0;v<2;v++) for(p=0;p<g->box[b]->nnodes;p++) g->box[b]->v[iu[v]][p]=u0[b][v][p]+ee*l0[b][v][p]; }
/* c[0]: 2 or 3 Poisson2, Poisson3, c[1]: boxes, c[2..4]: points, c[5]: boundaries (Poisson2: spherical shells, Poisson3: 1 faces, 2 also one block), c[6]: 1 positions in x y z */
void h_pois(int *c)
{ tGrid *g; int b, v, k, p, q, n, ir[2], ix, i, no[2][MP]; double F[2][2][MP], R[5][2][2][MP], S[2][2][MP], t; char s[50]; int P3=c[0]==3, blk=-1; tVarBoxSubboxIndices bi;
  npdbmax=150; NB=c[1]; NP=c[2]*c[3]*c[4]; AddPar("storage_verbose","no","d"); AddPar("physics",P3?"Poisson3":"Poisson2","d"); if(P3) sgrid_Poisson3(); else sgrid_Poisson2(); if(!P3) Sets("Poisson2_grid",c[5]?"SphericalDF":"none");
  AddVar("X","",""); AddVar("Y","",""); AddVar("Z","",""); AddVar("x","",""); AddVar("y","",""); AddVar("z","",""); g=alloc_grid(NB,nvdb); for(b=0;b<NB;b++) alloc_box(g,b,c[2],c[3],c[4]);
  UA=vlalloc(g); U=vlalloc(g);
  for(v=0;v<2;v++) { char *nm[3]={"","x","xx"}; for(k=0;k<3;k++) { sprintf(s,"Poisson%d_%s%s",c[0],v?"Chi":"Psi",nm[k]); vlpush(UA,Ind(s)); if(!k) vlpush(U,Ind(s)); } }
  for(v=0;v<2;v++) { sprintf(s,"Poisson%d_rh%d",c[0],v+1); ir[v]=Ind(s); vlpush(UA,ir[v]); }
  enablevarlist(UA); FU=AddDuplicateEnable(U,"_Err"); L=AddDuplicateEnable(U,"_l"); LA=vlalloc(g);
  { tVarList *d=AddDuplicate(UA,"_a"); JL=AddDuplicateEnable(FU,"_l"); for(k=0;k<d->n;k++) { int w=d->index[k]; if(k==0) w=L->index[0]; if(k==10) w=L->index[1]; vlpushone(LA,w); enablevarcomp(g,w); } }
  for(v=0;v<2;v++) { iu[v]=U->index[v]; il[v]=L->index[v]; } for(k=1;k<4;k++) W[k]=0.5*k-0.75;
  for(k=0;k<(c[6]?6:3);k++) enablevar(g,Ind(k==0?"X":k==1?"Y":k==2?"Z":k==3?"x":k==4?"y":"z"));
  n=0; for(b=0;b<NB;b++) for(p=0;p<NP;p++)
  { double *o=X3[(b+p)%4]; for(k=0;k<3;k++) { g->box[b]->v[Ind("X")+k][p]= c[6] ? -5-k : o[k]*0.25; if(c[6]) g->box[b]->v[Ind("x")+k][p]=o[k]*0.25; } no[b][p]=0;
    for(v=0;v<2;v++) { u0[b][v][p]=in_d(n++,-2,2); l0[b][v][p]=in_d(n++,-2,2); S[b][v][p]=g->box[b]->v[ir[v]][p]=in_d(n++,-2,2); for(k=0;k<9;k++) { D[b][v][k][p]=in_d(n++,-2,2); DL[b][v][k][p]=in_d(n++,-2,2); } g->box[b]->v[il[v]][p]=l0[b][v][p]; } }
  if(P3 && c[5]) for(b=0;b<NB;b++) for(i=0;i<2;i++)   /* an outer face and one that touches another box */
  { int fi=add_empty_bface(g->box[b],i); tBface *f=g->box[b]->bface[fi]; if(i==0) f->outerbound=1; else f->ob=NB-1-b; f->fpts=AllocatePointList(g); for(p=i?NP-1:0;p<NP;p+=i?1:NP-1) { if(!i && p>0 && NP<3) break; if(!i && p==NP-1) break; AddToPointList(f->fpts,b,p); no[b][p]= i ? 2 : 1; } }
  else if(!P3 && c[5]) for(b=0;b<NB;b++) for(p=0;p<NP;p++) { if(p%c[2]==0) no[b][p]=1; if(p%c[2]==c[2]-1) no[b][p]=2; }
  if(c[5]==2) { bi.vari=iu[1]; bi.bi=NB-1; U->vlPars=&bi; blk=1; }
  for(k=0;k<5;k++)
  { ee=(k-2); fillF(g); for(b=0;b<NB;b++) for(v=0;v<2;v++) for(p=0;p<NP;p++) g->box[b]->v[FU->index[v]][p]=777;
    if(P3) F_Poisson3(FU,U,UA,LA); else F_Poisson2(FU,U,UA,LA);
    for(b=0;b<NB;b++) for(v=0;v<2;v++) for(p=0;p<NP;p++) R[k][b][v][p]=g->box[b]->v[FU->index[v]][p]; }
  ee=0; fillF(g); for(b=0;b<NB;b++) for(v=0;v<2;v++) for(p=0;p<NP;p++) for(k=0;k<9;k++) g->box[b]->v[UA->index[10*v+1+k]][p]=D[b][v][k][p];
  if(c[5]==2) { bi.vari=il[1]; L->vlPars=&bi; }
  if(P3) J_Poisson3(JL,L,UA,LA); else J_Poisson2(JL,L,UA,LA);
  v_true("derivatives_belong_to_the_variable",!wrong); v_true("derivatives_of_each_box",nd[0]==10*NB && nd[1]==2*NB);
  v_true("conditions_at_each_face",nib==(P3 && c[5] ? (c[5]==2 ? 6 : 12*NB) : 0));
  for(b=0;b<NB;b++) for(v=0;v<2;v++) for(p=0;p<NP;p++)
  { double (*d)[MP]=D[b][v], ps=u0[b][0][p], ch=u0[b][1][p]; int w=no[b][p]; if(blk>=0 && (v!=1 || b!=NB-1)) w=0;
    if(w==0) { t= !P3 ? d[3][p]+d[6][p]+d[8][p] : v==0 ? ch*d[3][p]+d[6][p]+ch*ch*d[8][p] : d[3][p]+D[b][0][0][p]*d[6][p]+d[8][p]; v_check("equation",R[2][b][v][p],t-S[b][v][p],1e-9); }
    else if(!P3) v_check("boundary_value",R[2][b][v][p],u0[b][v][p]-(w==1 ? 1.0 : 0.5)*(v+1),1e-9);
    else if(w==1) { double r=X3[(b+p)%4][3]*0.25; v_check("boundary_value",R[2][b][v][p],u0[b][v][p]-(v?1:erf(r)/(4*PI*r)),1e-9); }
    else { t=2*u0[b][v][p]; for(k=0;k<3;k++) t+=W[k+1]*d[k][p]; v_check("condition_between_boxes",R[2][b][v][p],t,1e-9); }
    v_check("linearization",12*g->box[b]->v[JL->index[v]][p],8*(R[3][b][v][p]-R[1][b][v][p])-(R[4][b][v][p]-R[0][b][v][p]),1e-8); }
  v_reach("end"); }
/* scalar wave */
static int ord[4], no_, sw; static double Ps[2][9][MP];
void allDerivsOf_S(tBox *b, int i, int i1, int i2) { int k, p; if(i!=sw || i1!=Ind("ScalarWave_dpsix") || i2!=Ind("ScalarWave_ddpsixx")) wrong=1; nd[2]++; for(k=0;k<9;k++) for(p=0;p<NP;p++) b->v[k<3?i1+k:i2+k-3][p]=Ps[b->b][k][p]; }
void FirstDerivsOf_S(tBox *b, int i, int i1) { int k, p; if(i!=sw || i1!=Ind("ScalarWave_dpsix")) wrong=1; nd[3]++; for(k=0;k<3;k++) for(p=0;p<NP;p++) b->v[i1+k][p]=Ps[b->b][k][p]; }
static tVarList *gn, *gp, *gc; static double gdt;
static void note(int k) { if(no_<4) ord[no_++]=k; else wrong=1; }
void addDissipation(tVarList *n, tVarList *p, double dt, tVarList *c) { if(n!=gn || p!=gp || c!=gc || dt!=gdt) wrong=1; note(1); }
void set_boundary(tVarList *n, tVarList *p, double dt, tVarList *c) { if(n!=gn || p!=gp || c!=gc || dt!=gdt) wrong=1; note(2); }
void coordinateDependentFilter(tVarList *n) { if(n!=gn) wrong=1; note(3); }
void reset_doubleCoveredPoints(tVarList *n) { if(n!=gn) wrong=1; note(4); }
int timeforoutput_index(tGrid *g, int i) { return i==Ind("ScalarWave_rho"); }
/* c[0]: boxes, c[1]: points, c[2]: nonlinearity, c[3]: 1 a step, c[4]: 1 dissipation, 2 filter, 4 doubly covered points */
void h_wave(int *c)
{ tGrid *g; int b, p, k, n=0, in[4]; double nl= c[2]==1 ? 0.5 : c[2]==2 ? -2 : 0, dt= c[3] ? in_d(9000,0.125,1) : 0, a[2][2][MP], o[2][2][MP];
  npdbmax=100; NB=c[0]; NP=c[1]; AddPar("storage_verbose","no","d"); AddPar("physics","ScalarWave","d"); sgrid_ScalarWave(); AddPar("evolve_Dissipation",c[4]&1?"yes":"no",""); Sets("ScalarWave_nonlinearity",c[2]==1?"0.5":c[2]==2?"-2":"0");
  if(c[4]&2) Sets("ScalarWave_coordinateDependentFilter","yes"); if(c[4]&4) Sets("ScalarWave_reset_doubleCoveredPoints","yes");
  g=alloc_grid(NB,nvdb); for(b=0;b<NB;b++) alloc_box(g,b,NP,1,1); gc=vlalloc(g); vlpush(gc,Ind("ScalarWave_psi")); vlpush(gc,Ind("ScalarWave_psidot")); sw=gc->index[0]; enablevarlist(gc); gn=AddDuplicateEnable(gc,"_n"); gp=AddDuplicateEnable(gc,"_p");
  enablevar(g,Ind("ScalarWave_dpsix")); enablevar(g,Ind("ScalarWave_ddpsixx")); enablevar(g,Ind("ScalarWave_rho")); gdt=dt;
  for(b=0;b<NB;b++) for(p=0;p<NP;p++) { for(k=0;k<2;k++) { g->box[b]->v[gc->index[k]][p]=a[b][k][p]=in_d(n++,-2,2); g->box[b]->v[gp->index[k]][p]=o[b][k][p]=in_d(n++,-2,2); g->box[b]->v[gn->index[k]][p]=777; } for(k=0;k<9;k++) Ps[b][k][p]=in_d(n++,-2,2); }
  ScalarWave_evolve(gn,gp,dt,gc);
  v_true("derivatives_of_each_box",nd[2]==NB && !wrong); k=0; if(c[4]&1) in[k++]=1; in[k++]=2; if(c[4]&2) in[k++]=3; if(c[4]&4) in[k++]=4; n=k==no_; for(p=0;p<k && n;p++) n=in[p]==ord[p]; v_true("order_of_the_parts",n);
  for(b=0;b<NB;b++) for(p=0;p<NP;p++)
  { double x=a[b][0][p], q=1+x*x, r=Ps[b][3][p]+Ps[b][6][p]+Ps[b][8][p], y=g->box[b]->v[gn->index[1]][p]; if(c[3]) { v_check("wave_equation",y*q,(o[b][1][p]+dt*r)*q-dt*nl*x*x*x,1e-8); v_check("field",g->box[b]->v[gn->index[0]][p],o[b][0][p]+dt*a[b][1][p],1e-9); } else { v_check("wave_equation",y*q,r*q-nl*x*x*x,1e-8); v_check("field",g->box[b]->v[gn->index[0]][p],a[b][1][p],1e-9); } }
  ScalarWave_analyze(g); v_true("derivatives_for_energy",nd[3]==NB && !wrong);
  for(b=0;b<NB;b++) for(p=0;p<NP;p++) { double x=a[b][0][p], t=a[b][1][p]*a[b][1][p]; for(k=0;k<3;k++) t+=Ps[b][k][p]*Ps[b][k][p]; if(nl!=0) t+=nl*(x*x-log(1+x*x)); v_check("energy_density",2*g->box[b]->v[Ind("ScalarWave_rho")][p],t,1e-8); }
  v_reach("end"); }
