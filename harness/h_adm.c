/* constraints of general relativity from the metric, the extrinsic curvature, the gauge, matter and a conformal factor; derivatives are stand-ins with any values */
#include "sgrid.h"
#include "main.h"
#include "MemoryMan.h"
#include "ADMvars.h"
#include "vh.h"
#include <math.h>
extern int npdbmax, nvdb;
tBox *alloc_box(tGrid *g, int b, int n1, int n2, int n3);
static int ix[3][3]={{0,1,2},{1,3,4},{2,4,5}};
static tGrid *g; static int NPT=1, NB=1, nd[8];
static double D1[2][2][18], D2[2][2][36], DK[2][2][18], A1[2][2][3], A2[2][2][6];
static void put(tBox *b, int iv, double *s, int n) { int i, j; for(j=0;j<n;j++) for(i=0;i<NPT;i++) b->v[iv+j][i]=s[i*n+j]; }
void FirstAndSecondDerivsOf_Sab(tBox *b, int i, int i1, int i2) { v_true("derivatives_of_metric", i==Ind("gxx") && i1==Ind("ADMvars_dgxxx") && i2==Ind("ADMvars_ddgxxxx")); nd[0]++; put(b,i1,D1[b->b][0],18); put(b,i2,D2[b->b][0],36); }
void FirstAndSecondDerivsOf_S(tBox *b, int i, int i1, int i2) { v_true("derivatives_of_lapse", i==Ind("alpha") && i1==Ind("ADMvars_dalpx") && i2==Ind("ADMvars_ddalpxx")); nd[1]++; put(b,i1,A1[b->b][0],3); put(b,i2,A2[b->b][0],6); }
void allDerivsOf_Sab(tBox *b, int i, int i1, int i2) { nd[2]++; FirstAndSecondDerivsOf_Sab(b,i,i1,i2); }
void allDerivsOf_S(tBox *b, int i, int i1, int i2) { nd[2]++; FirstAndSecondDerivsOf_S(b,i,i1,i2); }
static int eng;
double ADMvars_detg(double a, double b, double c, double d, double e, double f);
double ADMvars_invg(double a, double b, double c, double d, double e, double f, double *g, double *h, double *i, double *j, double *k, double *l);
void FirstDerivsOf_Sab(tBox *b, int i, int i1) { if(eng) { v_true("derivatives_of_metric_for_energy", i==Ind("gxx") && i1==Ind("ADMvars_dgxxx")); nd[3]++; put(b,i1,D1[b->b][0],18); return; } v_true("derivatives_of_curvature", i==Ind("Kxx") && i1==Ind("ADMvars_dKxxx")); nd[3]++; put(b,i1,DK[b->b][0],18); }
static int nin;
static int only;      /* if not 0: only this input may have any value */
static double in(void) { nin++; return only && nin!=only ? (nin*7%17-8)*0.125 : in_d(nin,-1,1); }
static void inv(double m[3][3], double r[3][3])
{ int a, b; double d=m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1])-m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0])+m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]);
  for(a=0;a<3;a++) for(b=0;b<3;b++) r[b][a]=(m[(a+1)%3][(b+1)%3]*m[(a+2)%3][(b+2)%3]-m[(a+1)%3][(b+2)%3]*m[(a+2)%3][(b+1)%3])/d; }
/* metrics with determinant a power of two, conformal factors */
static double GM[4][6]={ {1,0,0,1,0,1}, {1,0.5,-0.25,1.25,0.375,1.3125}, {2,0,1,0.5,-0.25,1.625}, {4,-2,1,2,-1.5,2.25} }, PS[3]={1,2,0.5};
/* c[0]: metric, c[1]: conformal factor, c[2]: matter 0 none, 1 all, 2 only rho, 3 only j, c[3]: 1 second derivatives at once, c[4]: boxes, c[5]: points, c[6]: 0 no norm, 1 term by term, 2 dumb, c[7]: the input that may have any value (0: all) */
void h_constraints(int *c)
{ int a, b, d, e, f, i, q, bi; tVarList *u; char *nm[20]={"gxx","Kxx","alpha","betax","rho","jx","Sxx","ham","momx","trK","dtrK_dt","ham","momx"};
  NB=c[4]; NPT=c[5]; only=c[7]; npdbmax=60; AddPar("storage_verbose","no","d"); AddPar("physics","ADMvars","d"); AddPar("ADMvars_normalizedConstraints",c[6]?"yes":"no","d");
  sgrid_ADMvars(); if(c[3]) Sets("ADMvars_useDD","yes"); if(c[6]) { nm[11]="normham"; nm[12]="normmomx"; Sets("ADMvars_ConstraintNorm",c[6]==1?"TermByTerm":"dumb"); }
  g=alloc_grid(NB,nvdb); for(bi=0;bi<NB;bi++) alloc_box(g,bi,NPT,1,1);
  u=vlalloc(g); for(i=0;i<13;i++) { vlpush(u,Ind(nm[i])); if((i==4 && (c[2]==0 || c[2]==3)) || (i==5 && (c[2]==0 || c[2]==2)) || (i==6 && c[2]!=1)) continue; enablevar(g,Ind(nm[i])); }
  psiandderivs->grid=g; enablevarlist(psiandderivs); enablevar(g,Ind("ADMvars_dgxxx")); enablevar(g,Ind("ADMvars_ddgxxxx")); enablevar(g,Ind("ADMvars_dKxxx")); enablevar(g,Ind("ADMvars_dalpx")); enablevar(g,Ind("ADMvars_ddalpxx"));
#define V(n,k) g->box[bi]->v[Ind(n)+(k)][q]
  for(bi=0;bi<NB;bi++) for(q=0;q<NPT;q++)
  { double *p;
    for(i=0;i<6;i++) { V("gxx",i)=GM[(c[0]+bi+q)%4][i]; V("Kxx",i)=in(); V("ddpsiopsixx",i)=in(); if(c[2]==1) V("Sxx",i)=in(); }
    V("psi",0)= c[1]==3 ? in_d(9000+10*bi+q,0.5,2) : PS[(c[1]+bi+q)%3];
    if(c[0]>=4) { double x=-0.5, y=0.25, z=0.5, *w= c[0]==4 ? &x : c[0]==5 ? &y : &z; *w=in_d(9500+10*bi+q,-1,1); if(c[0]==7) { x=in_d(9501+10*bi+q,-1,1); y=in_d(9502+10*bi+q,-1,1); } V("gxx",0)=1; V("gxx",1)=x; V("gxx",2)=y; V("gxx",3)=1+x*x; V("gxx",4)=x*y+z; V("gxx",5)=1+y*y+z*z; } V("alpha",0)=in(); if(c[2]==1 || c[2]==2) V("rho",0)=in();
    for(i=0;i<3;i++) { V("dpsiopsix",i)=in(); V("betax",i)=in(); if(c[2]==1 || c[2]==3) V("jx",i)=in(); }
    p=D1[bi][0]+18*q; for(i=0;i<18;i++) p[i]=in(); p=D2[bi][0]+36*q; for(i=0;i<36;i++) p[i]=in(); p=DK[bi][0]+18*q; for(i=0;i<18;i++) p[i]=in();
    p=A1[bi][0]+3*q; for(i=0;i<3;i++) p[i]=in(); p=A2[bi][0]+6*q; for(i=0;i<6;i++) p[i]=in(); }
  ADMconstraints(u);
  v_true("derivatives_of_each_box", nd[0]==NB && nd[1]==NB && nd[3]==NB && nd[2]==(c[3]?2*NB:0));
  for(bi=0;bi<NB;bi++) for(q=0;q<NPT;q++)
  { double *p1=D1[bi][0]+18*q, *p2=D2[bi][0]+36*q, *pk=DK[bi][0]+18*q, *a1=A1[bi][0]+3*q, *a2=A2[bi][0]+6*q, ps=V("psi",0), F=ps*ps*ps*ps, h[3][3], dh[3][3][3], ddh[3][3][3][3], hi[3][3], dhi[3][3][3], Ga[3][3][3], dG[3][3][3][3], K[3][3], R=0, tK=0, KK=0, dtK[3], rho=0, S=0, t, L=0, bK=0, Ric[3][3], DKd[3][3][3];
    for(a=0;a<3;a++) for(b=0;b<3;b++)
    { int m=ix[a][b]; h[a][b]=F*V("gxx",m); K[a][b]=V("Kxx",m);
      for(d=0;d<3;d++) { double pd=V("dpsiopsix",d); dh[a][b][d]=F*p1[3*m+d]+4*F*pd*V("gxx",m);
        for(e=0;e<3;e++) { double pe=V("dpsiopsix",e); ddh[a][b][d][e]=F*p2[6*m+ix[d][e]]+4*F*pd*p1[3*m+e]+4*F*pe*p1[3*m+d]+(4*F*V("ddpsiopsixx",ix[d][e])+12*F*pd*pe)*V("gxx",m); } } }
    inv(h,hi);
    for(a=0;a<3;a++) for(b=0;b<3;b++) for(d=0;d<3;d++) { dhi[a][b][d]=0; for(e=0;e<3;e++) for(f=0;f<3;f++) dhi[a][b][d]-=hi[a][e]*hi[b][f]*dh[e][f][d]; }
    for(a=0;a<3;a++) for(b=0;b<3;b++) for(d=0;d<3;d++)
    { Ga[a][b][d]=0; for(e=0;e<3;e++) Ga[a][b][d]+=0.5*hi[a][e]*(dh[e][b][d]+dh[e][d][b]-dh[b][d][e]); }
    for(a=0;a<3;a++) for(b=0;b<3;b++) for(d=0;d<3;d++) for(f=0;f<3;f++)
    { t=0; for(e=0;e<3;e++) t+=0.5*dhi[a][e][f]*(dh[e][b][d]+dh[e][d][b]-dh[b][d][e])+0.5*hi[a][e]*(ddh[e][b][d][f]+ddh[e][d][b][f]-ddh[b][d][e][f]); dG[a][b][d][f]=t; }
    for(b=0;b<3;b++) for(d=0;d<3;d++)
    { t=0; for(a=0;a<3;a++) { t+=dG[a][b][d][a]-dG[a][b][a][d]; for(e=0;e<3;e++) t+=Ga[a][a][e]*Ga[e][b][d]-Ga[a][d][e]*Ga[e][b][a]; } Ric[b][d]=t; R+=hi[b][d]*t; tK+=hi[b][d]*K[b][d];
      for(a=0;a<3;a++) for(e=0;e<3;e++) KK+=hi[a][b]*hi[d][e]*K[a][d]*K[b][e]; }
    for(d=0;d<3;d++) { dtK[d]=0; for(a=0;a<3;a++) for(b=0;b<3;b++) { dtK[d]+=hi[a][b]*pk[3*ix[a][b]+d]+dhi[a][b][d]*K[a][b]; t=pk[3*ix[a][b]+d]; for(e=0;e<3;e++) t-=Ga[e][a][d]*K[e][b]+Ga[e][b][d]*K[a][e]; DKd[a][b][d]=t; } }
    if(c[2]==1 || c[2]==2) rho=V("rho",0);
    if(c[6]==2)
    { double den, hr=16*PI*rho, mu[3], m1, m2, m3, k1, k2, k3, mr;
      den=fabs(R)+tK*tK+fabs(KK)+fabs(hr); v_check("normalized_hamiltonian_constraint", V("normham",0)*den, R+tK*tK-KK-hr, 1e-7);
      for(den=0,a=0;a<3;a++)
      { m1=m2=m3=k1=k2=k3=mu[a]=0; mr= c[2]==1 || c[2]==3 ? 8*PI*V("jx",a) : 0;
        for(b=0;b<3;b++) for(d=0;d<3;d++)
        { double w=hi[b][d]; m1+=w*pk[3*ix[a][b]+d]; k1+=w*pk[3*ix[b][d]+a];
          for(e=0;e<3;e++) { m2-=w*Ga[e][d][b]*K[e][a]; m3-=w*Ga[e][d][a]*K[b][e]; k2-=w*Ga[e][a][b]*K[e][d]; k3-=w*Ga[e][a][d]*K[b][e]; } }
        mu[a]=m1+m2+m3-k1-k2-k3-mr;
        den+=fabs(m1+m2+m3)+fabs(k1+k2+k3)+fabs(mr); }
      for(a=0;a<3;a++) v_check("normalized_momentum_constraint", V("normmomx",a)*den, mu[a], 1e-7); }
    v_check("hamiltonian_constraint", V("ham",0), R+tK*tK-KK-16*PI*rho, 1e-7);
    v_check("trace_of_extrinsic_curvature", V("trK",0), tK, 1e-9);
    for(a=0;a<3;a++)
    { t=-dtK[a]; for(b=0;b<3;b++) for(d=0;d<3;d++) t+=hi[b][d]*DKd[a][b][d]; if(c[2]==1 || c[2]==3) t-=8*PI*V("jx",a); v_check("momentum_constraint", V("momx",a), t, 1e-8); bK+=V("betax",a)*dtK[a]; }
    for(a=0;a<3;a++) for(b=0;b<3;b++) { t=a2[ix[a][b]]; for(e=0;e<3;e++) t-=Ga[e][a][b]*a1[e]; L+=hi[a][b]*t; if(c[2]==1) S+=hi[a][b]*V("Sxx",ix[a][b]); }
    if(c[2]<=1) v_check("time_derivative_of_trace", V("dtrK_dt",0), -L+V("alpha",0)*(R+tK*tK+4*PI*(S-3*rho))+bK, 1e-7); }
  v_reach("end"); }

static int sgm(int c, double *m) /* metric number c: constant, one entry of its factor symbolic, or all */
{ int i; double x=-0.5, y=0.25, z=0.5, *w= c==4 ? &x : c==5 ? &y : &z; for(i=0;i<6;i++) m[i]=GM[c%4][i];
  if(c>=4) { *w=in_d(9500,-1,1); if(c==7) { x=in_d(9501,-1,1); y=in_d(9502,-1,1); } m[0]=1; m[1]=x; m[2]=y; m[3]=1+x*x; m[4]=x*y+z; m[5]=1+y*y+z*z; } return 0; }
/* determinant, inverse and initial trace, and undoing the conformal split; c[0]: metric (8: any invertible), c[1]: conformal factor (3: any), c[2]: boxes, c[3]: points, c[4]: 1 with derivatives of psi */
void h_metric(int *c)
{ int i, a, b, e, q, bi; double m[2][2][6], k[2][2][6], ps[2][2], r[6], d, M[3][3], R[3][3], t; 
  npdbmax=60; AddPar("storage_verbose","no","d"); AddPar("physics","ADMvars","d"); sgrid_ADMvars(); NB=c[2]; NPT=c[3]; g=alloc_grid(NB,nvdb); for(bi=0;bi<NB;bi++) alloc_box(g,bi,NPT,1,1);
  enablevar(g,Ind("gxx")); enablevar(g,Ind("Kxx")); enablevar(g,Ind("psi")); if(c[4]) { enablevar(g,Ind("dpsiopsix")); enablevar(g,Ind("ddpsiopsixx")); }
  for(bi=0;bi<NB;bi++) for(q=0;q<NPT;q++)
  { sgm(c[0]==8||bi||q ? (bi+2*q+1)%4 : c[0],m[bi][q]); if(c[0]==8 && !bi && !q) for(i=0;i<6;i++) m[bi][q][i]=in_d(i,-2,2);
    ps[bi][q]= c[1]==3 ? in_d(30+2*bi+q,0.5,2) : PS[(c[1]+bi+q)%3]; V("psi",0)=ps[bi][q];
    for(i=0;i<6;i++) { V("gxx",i)=m[bi][q][i]; V("Kxx",i)=k[bi][q][i]=in_d(40+12*bi+6*q+i,-2,2); if(c[4]) V("ddpsiopsixx",i)=in_d(70+12*bi+6*q+i,-2,2); } if(c[4]) for(i=0;i<3;i++) V("dpsiopsix",i)=in_d(100+6*bi+3*q+i,-2,2); }
  { double *p=m[0][0]; d=ADMvars_detg(p[0],p[1],p[2],p[3],p[4],p[5]); t=p[0]*(p[3]*p[5]-p[4]*p[4])-p[1]*(p[1]*p[5]-p[2]*p[4])+p[2]*(p[1]*p[4]-p[2]*p[3]); v_check("determinant",d,t,1e-10);
    v_assume((t>=0.0625) | (t<=-0.0625));
    v_check("determinant_from_inverse",ADMvars_invg(p[0],p[1],p[2],p[3],p[4],p[5],r,r+1,r+2,r+3,r+4,r+5),t,1e-10);
    for(a=0;a<3;a++) for(b=0;b<3;b++) { M[a][b]=p[ix[a][b]]; R[a][b]=r[ix[a][b]]; }
    for(a=0;a<3;a++) for(b=0;b<3;b++) { for(d=0,e=0;e<3;e++) d+=M[a][e]*R[e][b]; v_check("inverse_metric",d*t,(a==b)*t,1e-7); } }
  set_K_initial(g);
  for(bi=0;bi<NB;bi++) for(q=0;q<NPT;q++)
  { double p=ps[bi][q]; for(a=0;a<3;a++) for(b=0;b<3;b++) M[a][b]=p*p*p*p*m[bi][q][ix[a][b]]; if(bi+q==0 && c[0]==8) continue;
    inv(M,R); for(d=0,a=0;a<3;a++) for(b=0;b<3;b++) d+=R[a][b]*k[bi][q][ix[a][b]]; v_check("initial_trace_of_K",V("K_initial",0),d,1e-8); }
  ADMvars_undo_conformal_split(g);
  for(bi=0;bi<NB;bi++) for(q=0;q<NPT;q++)
  { double p=ps[bi][q]; v_check("conformal_factor_is_one",V("psi",0),1,0);
    for(i=0;i<6;i++) { v_check("metric_is_physical",V("gxx",i),p*p*p*p*m[bi][q][i],1e-9); v_check("K_stays",V("Kxx",i),k[bi][q][i],0); if(c[4]) v_check("derivatives_of_psi_vanish",V("ddpsiopsixx",i),0,0); }
    if(c[4]) for(i=0;i<3;i++) v_check("derivatives_of_psi_vanish",V("dpsiopsix",i),0,0); }
  v_reach("end"); }
static double XS[4][4]={ {1,2,2,3}, {-2,3,6,7}, {4,0,-3,5}, {-6,-2,-3,7} };
/* integrand of the energy at infinity; c[0]: metric, c[1]: conformal factor (3: any), c[2]: position (4: origin), c[3]: boxes, c[4]: points */
void h_energy(int *c)
{ int a, b, d, e, i, q, bi; tVarList *u; char *nm[7]={"E_ADM","gxx","x","y","z","psi","dpsiopsix"}; double sc[2][2];
  eng=1; npdbmax=60; AddPar("storage_verbose","no","d"); AddPar("physics","ADMvars","d"); sgrid_ADMvars(); AddVar("x","",""); AddVar("y","",""); AddVar("z","",""); NB=c[3]; NPT=c[4]; g=alloc_grid(NB,nvdb); for(bi=0;bi<NB;bi++) alloc_box(g,bi,NPT,1,1);
  u=vlalloc(g); for(i=0;i<7;i++) { vlpush(u,Ind(nm[i])); enablevar(g,Ind(nm[i])); } enablevar(g,Ind("ADMvars_dgxxx"));
  for(bi=0;bi<NB;bi++) for(q=0;q<NPT;q++)
  { double m[6], *p; sgm(bi||q ? (c[0]+bi+q)%4 : c[0],m); V("psi",0)= c[1]==3 ? in_d(30+2*bi+q,0.5,2) : PS[(c[1]+bi+q)%3]; for(i=0;i<6;i++) V("gxx",i)=m[i]; for(i=0;i<3;i++) V("dpsiopsix",i)=in_d(100+6*bi+3*q+i,-1,1);
    p=D1[bi][0]+18*q; for(i=0;i<18;i++) p[i]=in_d(200+36*bi+18*q+i,-1,1);
    sc[bi][q]= c[2]==4 && !bi && !q ? 0 : (bi==q ? 1 : bi ? 2 : 0.5); i=(c[2]+bi+2*q)%4; V("x",0)=sc[bi][q]*XS[i][0]; V("y",0)=sc[bi][q]*XS[i][1]; V("z",0)=sc[bi][q]*XS[i][2]; }
  ADMenergy_spheric_intergrand(u); v_true("derivatives_of_each_box",nd[3]==NB);
  for(bi=0;bi<NB;bi++) for(q=0;q<NPT;q++)
  { double ps=V("psi",0), F=ps*ps*ps*ps, h[3][3], hi[3][3], dh[3][3][3], D, t=0, *p1=D1[bi][0]+18*q, *xs=XS[(c[2]+bi+2*q)%4];
    for(a=0;a<3;a++) for(b=0;b<3;b++) { int m=ix[a][b]; h[a][b]=F*V("gxx",m); for(d=0;d<3;d++) dh[a][b][d]=F*p1[3*m+d]+4*F*V("dpsiopsix",d)*V("gxx",m); }
    inv(h,hi); D=h[0][0]*(h[1][1]*h[2][2]-h[1][2]*h[2][1])-h[0][1]*(h[1][0]*h[2][2]-h[1][2]*h[2][0])+h[0][2]*(h[1][0]*h[2][1]-h[1][1]*h[2][0]);
    for(a=0;a<3;a++) for(b=0;b<3;b++) for(d=0;d<3;d++) for(e=0;e<3;e++) t+=hi[a][b]*hi[d][e]*(dh[b][d][e]-dh[d][e][b])*xs[a]/xs[3];
    v_check("energy_integrand",V("E_ADM",0)*16*PI, sc[bi][q]!=0 ? D*t : 0,1e-6); }
  v_reach("end"); }
