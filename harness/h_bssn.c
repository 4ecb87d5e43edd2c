/* BSSN variables: conversion, constraints, right hand sides; derivatives are stand-ins with any values */
#include "sgrid.h"
#include "main.h"
#include "MemoryMan.h"
#include "ADMvars.h"
#include "BSSN.h"
#include "vh.h"
#include <math.h>
extern int npdbmax, nvdb;
tBox *alloc_box(tGrid *g, int b, int n1, int n2, int n3);
void BSSN_rhs(tVarList *unew, tVarList *upre, double dt, tVarList *ucur);
int sgrid_BSSN(void); int sgrid_ADMvars(void);
static int ix[3][3]={{0,1,2},{1,3,4},{2,4,5}};
static tGrid *g; static int NPT=1, NB=1, nd[12], dd;
/* derivatives: g, A, phi, G, K, alpha, beta */
static double Dg[2][2][18], DDg[2][2][36], DA[2][2][18], Dp[2][2][3], DDp[2][2][6], DG[2][2][9], DK[2][2][3], Da[2][2][3], DDa[2][2][6], Db[2][2][9], DDb[2][2][18];
static void put(tBox *b, int iv, double *s, int n) { int i, j; for(j=0;j<n;j++) for(i=0;i<NPT;i++) b->v[iv+j][i]=s[i*n+j]; }
static void dS(tBox *b, int i, int i1, int i2)
{ if(i==Ind("BSSN_phi")) { v_true("place_of_derivatives",i1==Ind("BSSN_dphix") && i2==Ind("BSSN_ddphixx")); nd[0]++; put(b,i1,Dp[b->b][0],3); put(b,i2,DDp[b->b][0],6); }
  else { v_true("place_of_derivatives",i==Ind("alpha") && i1==Ind("BSSN_dalpx") && i2==Ind("BSSN_ddalpxx")); nd[1]++; put(b,i1,Da[b->b][0],3); put(b,i2,DDa[b->b][0],6); } }
static void dSab(tBox *b, int i, int i1, int i2) { v_true("place_of_derivatives",i==Ind("BSSN_gxx") && i1==Ind("ADMvars_dgxxx") && i2==Ind("ADMvars_ddgxxxx")); nd[2]++; put(b,i1,Dg[b->b][0],18); put(b,i2,DDg[b->b][0],36); }
static void dSa(tBox *b, int i, int i1, int i2) { v_true("place_of_derivatives",i==Ind("betax") && i1==Ind("BSSN_dbetaxx") && i2==Ind("BSSN_ddbetaxxx")); nd[3]++; put(b,i1,Db[b->b][0],9); put(b,i2,DDb[b->b][0],18); }
void FirstAndSecondDerivsOf_S(tBox *b, int i, int i1, int i2) { dS(b,i,i1,i2); }
void FirstAndSecondDerivsOf_Sa(tBox *b, int i, int i1, int i2) { dSa(b,i,i1,i2); }
void FirstAndSecondDerivsOf_Sab(tBox *b, int i, int i1, int i2) { dSab(b,i,i1,i2); }
void allDerivsOf_S(tBox *b, int i, int i1, int i2) { dd++; dS(b,i,i1,i2); }
void allDerivsOf_Sa(tBox *b, int i, int i1, int i2) { dd++; dSa(b,i,i1,i2); }
void allDerivsOf_Sab(tBox *b, int i, int i1, int i2) { dd++; dSab(b,i,i1,i2); }
void FirstDerivsOf_Sab(tBox *b, int i, int i1)
{ if(i==Ind("BSSN_gxx")) { v_true("place_of_derivatives",i1==Ind("ADMvars_dgxxx")); nd[7]++; put(b,i1,Dg[b->b][0],18); return; }
  v_true("place_of_derivatives",i==Ind("BSSN_Axx") && i1==Ind("ADMvars_dKxxx")); nd[4]++; put(b,i1,DA[b->b][0],18); }
void FirstDerivsOf_Sa(tBox *b, int i, int i1) { v_true("place_of_derivatives",i==Ind("BSSN_Gx") && i1==Ind("BSSN_dGxx")); nd[5]++; put(b,i1,DG[b->b][0],9); }
void FirstDerivsOf_S(tBox *b, int i, int i1) { v_true("place_of_derivatives",i==Ind("BSSN_K") && i1==Ind("BSSN_dKx")); nd[6]++; put(b,i1,DK[b->b][0],3); }
static int nin, only;
static double in(void) { nin++; return only && nin!=only ? (nin*7%17-8)*0.125 : in_d(nin,-1,1); }
static double det(double m[3][3]) { return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1])-m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0])+m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]); }
static void inv(double m[3][3], double r[3][3])
{ int a, b; double d=det(m); for(a=0;a<3;a++) for(b=0;b<3;b++) r[b][a]=(m[(a+1)%3][(b+1)%3]*m[(a+2)%3][(b+2)%3]-m[(a+1)%3][(b+2)%3]*m[(a+2)%3][(b+1)%3])/d; }
/* metrics with determinant one */
static double GM[4][6]={ {1,0,0,1,0,1}, {1,0.5,-0.25,1.25,0.375,1.3125}, {2,0,1,0.5,-0.25,1.625}, {2,1,0,2,1,1} };
static void sgm(int c, int k, double *m) { int i; double x=-0.5, y=0.25, z=0.5, *w= c==4 ? &x : c==5 ? &y : &z; for(i=0;i<6;i++) m[i]=GM[c%4][i];
  if(c>=4) { *w=in_d(9500+k,-1,1); if(c==7) { x=in_d(9520+k,-1,1); y=in_d(9540+k,-1,1); } m[0]=1; m[1]=x; m[2]=y; m[3]=1+x*x; m[4]=x*y+z; m[5]=1+y*y+z*z; } }
#define V(n,k) g->box[bi]->v[Ind(n)+(k)][q]
#define BIT(k) (o>>(k)&1)
static char *vn[9]={"BSSN_gxx","BSSN_phi","BSSN_Axx","BSSN_K","BSSN_Gx","alpha","betax","betadotx","BSSN_alphaDensity"};
static char *lapse[7]={"constant","1+log","1+log2","harmonic","1+log withshift","harmonic addliealpha","1+log addalphaRHSterm"}, *shift[3]={"constant","gamma0","gamma2"};
/* right hand sides; c[0]: metric, c[1]: 0 psi one, 1 psi two and any derivatives, c[2]: 1 a time step, c[3]: lapse, c[4]: shift, c[5]: options, c[6]: boxes, c[7]: points, c[8]: lapse density, c[9]: the input that may have any value (0: all) */
void h_rhs(int *c)
{ int a, b, d, e, i, q, bi, o=c[5], in0, ip0; tVarList *cur, *nw, *pr; double dt= c[2] ? 0.375 : 0, yo=0, rh=1, hf=2, gc=0.75, sd=0, lp=0, sp=0, ap=0, W=1, es=1; char s[20];
  npdbmax=150; only=c[9]; AddPar("storage_verbose","no","d"); AddPar("physics","ADMvars BSSN","d"); sgrid_ADMvars(); sgrid_BSSN(); NB=c[6]; NPT=c[7];
  for(i=0;i<25;i++) { s[0]='n'; s[1]='w'; s[2]='a'+i; s[3]=0; AddVar(s,"",""); if(!i) in0=Ind(s); } for(i=0;i<25;i++) { s[0]='p'; s[1]='r'; s[2]='a'+i; s[3]=0; AddVar(s,"",""); if(!i) ip0=Ind(s); }
  g=alloc_grid(NB,nvdb); for(bi=0;bi<NB;bi++) alloc_box(g,bi,NPT,1,1);
  Sets("BSSN_lapse",lapse[c[3]]); Sets("BSSN_shift",shift[c[4]]); if(BIT(0)) Sets("BSSN_useDD","yes"); if(BIT(1)) Sets("BSSN_forceKzero","yes"); Sets("BSSN_GReplacedBydg",BIT(2)?"yes":"no"); if(BIT(3)) Sets("BSSN_freezeGamma","yes"); Sets("BSSN_subtractK0",BIT(4)?"yes":"no");
  if(BIT(5)) { Sets("BSSN_YoTermFactor","0.25"); yo=0.25; Sets("BSSN_RtoRminusHfactor","0.5"); rh=0.5; Sets("BSSN_lapseharmonicf","1.5"); hf=1.5; Sets("BSSN_shiftgammacoeff","0.5"); gc=0.5; Sets("BSSN_shiftdriver","0.375"); sd=0.375; Sets("BSSN_lapsepsipower","2"); lp=2; Sets("BSSN_shiftpsipower","4"); sp=4; Sets("BSSN_shiftalphapower","1"); ap=1; Sets("BSSN_alphaDensityWeight","0.5"); W=0.5; }
  g->time=0; if(BIT(6)) { Sets("BSSN_shift_stop_time","5"); g->time=6; es=0; } if(BIT(7)) { Sets("BSSN_shift_stop_time","5"); g->time=4; es=1; }
  Sets("BSSN_subtractA",BIT(8)?"yes":"no"); Sets("BSSN_recomputeAzz",BIT(9)?"yes":"no"); Sets("BSSN_recomputegzz",BIT(10)?"yes":"no"); Sets("BSSN_normalizedetg",BIT(11)?"yes":"no");
  if(c[8]) Sets("BSSN_densitizedLapse",c[8]==1?"yes":"1+log_withoutShift");
  cur=vlalloc(g); nw=vlalloc(g); pr=vlalloc(g); for(i=0;i<9;i++) vlpush(cur,Ind(vn[i])); for(i=0;i<25;i++) { vlpushone(nw,in0+i); vlpushone(pr,ip0+i); } enablevarlist(cur); enablevarlist(nw); enablevarlist(pr);
  v_true("variables",cur->n==25); psiandderivs->grid=g; enablevarlist(psiandderivs); K_initial->grid=g; enablevarlist(K_initial);
  { char *w[]={"ADMvars_dgxxx","ADMvars_ddgxxxx","ADMvars_dKxxx","BSSN_dphix","BSSN_ddphixx","BSSN_dKx","BSSN_dGxx","BSSN_dalpx","BSSN_ddalpxx","BSSN_dbetaxx","BSSN_ddbetaxxx","BSSN_alphaRHSterm"}; for(i=0;i<12;i++) enablevar(g,Ind(w[i])); }
  for(bi=0;bi<NB;bi++) for(q=0;q<NPT;q++)
  { double m[6], z= BIT(12) ? 0 : 1; sgm(bi||q ? (c[0]+bi+2*q)%4 : c[0],bi+2*q,m);   /* bit 12: the metric stays */
#define FILL(X,n,f) for(i=0;i<n;i++) X[bi][q][i]=f
    for(i=0;i<6;i++) { V("BSSN_gxx",i)=m[i]; V("BSSN_Axx",i)= z*in(); V("ddpsiopsixx",i)= c[1] ? in() : 0; } V("BSSN_phi",0)=in(); V("BSSN_K",0)=in(); V("K_initial",0)=in(); V("BSSN_alphaRHSterm",0)=in(); V("BSSN_alphaDensity",0)=in();
    V("psi",0)= c[1] ? 2 : 1; V("alpha",0)= c[3]==2 ? 1.5-0.5*bi : in_d(9000+bi+2*q,0.5,2);
    for(i=0;i<3;i++) { V("dpsiopsix",i)= c[1] ? in() : 0; V("BSSN_Gx",i)=in(); V("betax",i)= z*in(); V("betadotx",i)=in(); }
    for(i=0;i<25;i++) { V("nwa",i)=777; V("pra",i)=in(); } sgm((c[0]+1)%4,0,m); for(i=0;i<6;i++) if(o>>8) V("pra",i)=m[i];
    FILL(Dg,18,in()); FILL(DDg,36,in()); FILL(DA,18,in()); FILL(Dp,3,in()); FILL(DDp,6,in()); FILL(DG,9,in()); FILL(DK,3,in()); FILL(Da,3,in()); FILL(DDa,6,in()); FILL(Db,9,z*in()); FILL(DDb,18,in()); }
  BSSN_rhs(nw,pr,dt,cur);
  for(i=0;i<7;i++) v_true("derivatives_of_each_variable_in_each_box",nd[i]==NB); v_true("way_to_take_derivatives",dd==(BIT(0)?4*NB:0));
  for(bi=0;bi<NB;bi++) for(q=0;q<NPT;q++)
  { double *dg=Dg[bi][q], *ddg=DDg[bi][q], *dA=DA[bi][q], *dp=Dp[bi][q], *ddp=DDp[bi][q], *dG=DG[bi][q], *dK=DK[bi][q], *da=Da[bi][q], *dda=DDa[bi][q], *db=Db[bi][q], *ddb=DDb[bi][q];
    double G[3][3], H[3][3], A[3][3], Ga[3][3][3], GG[3], Gd[3], U[3], R[3][3], f[3], ff[3][3], La=V("alpha",0), K=V("BSSN_K",0), be[3], Au[3][3], AA[3][3], trAA=0, R0=0, E, ca[3][3], trca=0, ff2=0, trff=0, db0=0, ddb0[3], t, u, rg[3][3], rA[3][3], rG[3], rK, rp, ra, rb[3], rB[3], rD, lie, ham, Rt, bF, v[25], w, phys[3][3], ps=V("psi",0), ra0;
    for(a=0;a<3;a++) { be[a]=V("betax",a); GG[a]=V("BSSN_Gx",a); f[a]=dp[a]+V("dpsiopsix",a); for(b=0;b<3;b++) { G[a][b]=V("BSSN_gxx",ix[a][b]); A[a][b]=V("BSSN_Axx",ix[a][b]); ff[a][b]=ddp[ix[a][b]]+V("ddpsiopsixx",ix[a][b])-V("dpsiopsix",a)*V("dpsiopsix",b); } }
    inv(G,H); if(BIT(1)) K=0;
#define dg_(a,b,d) dg[3*ix[a][b]+(d)]
    for(a=0;a<3;a++) for(b=0;b<3;b++) for(d=0;d<3;d++) { Ga[a][b][d]=0; for(e=0;e<3;e++) Ga[a][b][d]+=0.5*H[a][e]*(dg_(e,b,d)+dg_(e,d,b)-dg_(b,d,e)); }
    for(a=0;a<3;a++) { Gd[a]=0; for(b=0;b<3;b++) for(d=0;d<3;d++) Gd[a]+=H[b][d]*Ga[a][b][d]; U[a]= BIT(2) ? Gd[a] : GG[a]; db0+=db[3*a+a]; }
#define GL(k,a,b) (0.5*(dg_(k,a,b)+dg_(k,b,a)-dg_(a,b,k)))
    E=exp(-4*(V("BSSN_phi",0)+log(ps)));
    for(a=0;a<3;a++) for(b=0;b<3;b++)
    { int k, l, m; t=0; for(l=0;l<3;l++) for(m=0;m<3;m++) { t-=0.5*H[l][m]*ddg[6*ix[a][b]+ix[l][m]]; for(k=0;k<3;k++) t+=H[l][m]*(Ga[k][l][a]*GL(b,k,m)+Ga[k][l][b]*GL(a,k,m)+Ga[k][a][m]*GL(k,l,b)); }
      for(k=0;k<3;k++) t+=0.5*(G[k][a]*dG[3*k+b]+G[k][b]*dG[3*k+a]+U[k]*(GL(a,b,k)+GL(b,a,k))); R[a][b]=t;
      u=ddp[ix[a][b]]; t=dda[ix[a][b]]; for(k=0;k<3;k++) { ff[a][b]-=Ga[k][a][b]*f[k]; t-=Ga[k][a][b]*da[k]; } ca[a][b]=t-2*(f[a]*da[b]+f[b]*da[a]);
      Au[a][b]=AA[a][b]=0; for(d=0;d<3;d++) for(e=0;e<3;e++) { Au[a][b]+=H[a][d]*H[b][e]*A[d][e]; AA[a][b]+=H[d][e]*A[a][d]*A[e][b]; } ff2+=H[a][b]*f[a]*f[b]; }
    for(t=0,a=0;a<3;a++) for(b=0;b<3;b++) { trff+=H[a][b]*ff[a][b]; trAA+=H[a][b]*AA[a][b]; t+=H[a][b]*f[a]*da[b]; }
    for(a=0;a<3;a++) for(b=0;b<3;b++) { ca[a][b]+=2*G[a][b]*t; R[a][b]+=4*f[a]*f[b]-2*ff[a][b]-2*G[a][b]*trff-4*G[a][b]*ff2; }
    for(a=0;a<3;a++) for(b=0;b<3;b++) { trca+=E*H[a][b]*ca[a][b]; R0+=E*H[a][b]*R[a][b]; }
    ham=R0+2*K*K/3-trAA; Rt=R0-rh*ham;
    for(a=0;a<3;a++) for(b=0;b<3;b++)
    { t=-2*La*A[a][b]-2*G[a][b]*db0/3; u=E*(La*R[a][b]-ca[a][b])-G[a][b]*(La*Rt-trca)/3+La*(K*A[a][b]-2*AA[a][b])-2*A[a][b]*db0/3;
      for(d=0;d<3;d++) { t+=be[d]*dg_(a,b,d)+G[a][d]*db[3*d+b]+G[b][d]*db[3*d+a]; u+=be[d]*dA[3*ix[a][b]+d]+A[a][d]*db[3*d+b]+A[b][d]*db[3*d+a]; } rg[a][b]=t; rA[a][b]=u; }
    rK=-trca+La*(trAA+K*K/3); lie=db0/6; ra=0; for(d=0;d<3;d++) { w= BIT(1) ? 0 : dK[d]; rK+=be[d]*w; lie+=be[d]*f[d]; ra+=be[d]*da[d]; } rp=lie-La*K/6;
    for(a=0;a<3;a++)
    { t=2*U[a]*db0/3-yo*(GG[a]-Gd[a])*db0; for(b=0;b<3;b++) { t-=2*Au[a][b]*da[b]; w= BIT(1) ? 0 : dK[b]; u=2*H[a][b]*w/3-6*Au[a][b]*f[b]; for(d=0;d<3;d++) { u-=Ga[a][b][d]*Au[b][d]; t+=H[b][d]*ddb[6*a+ix[b][d]]+H[a][b]*ddb[6*d+ix[b][d]]/3; } t-=2*La*u; t+=be[b]*dG[3*a+b]-U[b]*db[3*a+b]; } rG[a]= BIT(3) ? 0 : t; }
    ra0=-La*(K-(BIT(4)?V("K_initial",0):0)); t=ra0+(c[3]==4?6*lie:0); if(lp==2) t*=ps*ps;
    w=ra; ra= c[3]==0 ? 0 : c[3]==1 || c[3]==4 || c[3]==6 ? t*hf : c[3]==2 ? t*8/(3*(3-La)) : t*La; if(c[3]==5) ra+=w; if(c[3]==6) ra+=V("BSSN_alphaRHSterm",0);
    bF=gc; if(ap==1) bF*=La; if(sp==4) bF/=ps*ps*ps*ps;
    for(a=0;a<3;a++) { rb[a]= es*(c[4]==1 ? bF : c[4]==2)*V("betadotx",a); rB[a]= es*((c[4]==1 ? 1 : c[4]==2 ? bF : 0)*rG[a]-sd*V("betadotx",a)); }
    for(i=0;i<25;i++) v[i]= c[2] ? V("pra",i) : 0; w= c[2] ? dt : 1;
    for(a=0;a<3;a++) { for(b=a;b<3;b++) { v[ix[a][b]]+=w*rg[a][b]; v[7+ix[a][b]]+=w*rA[a][b]; } v[14+a]+=w*rG[a]; v[18+a]+=w*rb[a]; v[21+a]+=w*rB[a]; }
    v[6]+=w*rp; v[13]= BIT(1) ? 0 : v[13]+w*rK; v[17]+=w*ra;
    if(c[8]) { double x=W*6*(V("BSSN_phi",0)+log(ps)); rD=ra/exp(x)-6*W*V("BSSN_alphaDensity",0)*rp; if(c[8]==2) rD=V("BSSN_alphaDensity",0)*((hf/La)*(lp==2?ps*ps:1)-W)*ra0; if(!c[3]) rD=0; v[24]+=w*rD; v[17]=v[24]*exp(6*W*(v[6]+log(ps))); }
    if(c[2] && BIT(10)) v[5]=1+(v[3]*v[2]*v[2]-2*v[1]*v[4]*v[2]+v[0]*v[4]*v[4])/(v[0]*v[3]-v[1]*v[1]);
    if(c[2] && (BIT(8) || BIT(9) || BIT(11)))
    { double x[3][3]; for(a=0;a<3;a++) for(b=0;b<3;b++) x[a][b]=v[ix[a][b]]; inv(x,phys);
      if(BIT(9)) { for(t=0,a=0;a<3;a++) for(b=0;b<3;b++) if(a+b<4) t+=phys[a][b]*v[7+ix[a][b]]; v[12]=-t/phys[2][2]; }
      if(BIT(8)) { for(t=0,a=0;a<3;a++) for(b=0;b<3;b++) t+=phys[a][b]*v[7+ix[a][b]]; for(i=0;i<6;i++) v[7+i]-=t*v[i]/3; }
      if(BIT(11)) { t=pow(det(x),-1.0/3); for(i=0;i<6;i++) v[i]*=t; } }
    for(i=0;i<6;i++) { v_check("metric",V("nwa",i),v[i],1e-8); v_check("tracefree_curvature",V("nwa",7+i),v[7+i],1e-7); }
    v_check("conformal_factor",V("nwa",6),v[6],1e-8); v_check("trace_of_curvature",V("nwa",13),v[13],1e-8); v_check("lapse",V("nwa",17),v[17],1e-8); if(c[8]) v_check("lapse_density",V("nwa",24),v[24],1e-8);
    for(a=0;a<3;a++) { v_check("contracted_connection",V("nwa",14+a),v[14+a],1e-8); v_check("shift",V("nwa",18+a),v[18+a],1e-8); v_check("time_derivative_of_shift",V("nwa",21+a),v[21+a],1e-8); } }
  v_reach("end"); }
/* from metric and extrinsic curvature to the variables of BSSN and back; c[0]: metric, c[1]: factor of the metric 0: 1, 1: 4, 2: 1/4, c[2]: psi 0 one, 1 two, 2 half, c[3]: weight of the lapse 1, 0, 0.5, c[4]: boxes, c[5]: points */
void h_conv(int *c)
{ int a, b, d, e, i, q, bi; static double m[2][3][6], k[2][3][6]; double fac[3]={1,4,0.25}, PS[3]={1,2,0.5}, W[3]={1,0,0.5}; char *ws[3]={"1","0","0.5"};
  npdbmax=150; AddPar("storage_verbose","no","d"); AddPar("physics","ADMvars BSSN","d"); sgrid_ADMvars(); sgrid_BSSN(); NB=c[4]; NPT=c[5]; g=alloc_grid(NB,nvdb); for(bi=0;bi<NB;bi++) alloc_box(g,bi,NPT,1,1);
  Sets("BSSN_alphaDensityWeight",ws[c[3]]);
  { char *w[]={"gxx","Kxx","psi","alpha","BSSN_gxx","BSSN_Axx","BSSN_Gx","BSSN_K","BSSN_phi","BSSN_alphaDensity","ADMvars_dgxxx"}; for(i=0;i<11;i++) enablevar(g,Ind(w[i])); }
  for(bi=0;bi<NB;bi++) for(q=0;q<NPT;q++)
  { sgm(bi||q ? (c[0]+bi+2*q)%4 : c[0],bi+2*q,m[bi][q]); for(i=0;i<6;i++) { V("gxx",i)=m[bi][q][i]*=fac[(c[1]+bi+q)%3]; V("Kxx",i)=k[bi][q][i]=in(); } V("alpha",0)=in(); V("psi",0)=PS[(c[2]+bi+q)%3]; if(q<2) FILL(Dg,18,in()); }
  BSSN_init(g,Ind("gxx"),Ind("Kxx"),Ind("psi"),Ind("BSSN_gxx"),Ind("BSSN_Axx"),Ind("BSSN_Gx"),Ind("BSSN_K"),Ind("BSSN_phi"),Ind("alpha"),Ind("BSSN_alphaDensity"));
  v_true("derivatives_of_each_box",nd[7]==NB);
  for(bi=0;bi<NB;bi++) for(q=0;q<NPT;q++)
  { double p=V("psi",0), s=fac[(c[1]+bi+q)%3], F=p*p*p*p, h[3][3], H[3][3], t, tr=0;
    for(a=0;a<3;a++) for(b=0;b<3;b++) h[a][b]=m[bi][q][ix[a][b]]/s; inv(h,H);
    for(a=0;a<3;a++) for(b=0;b<3;b++) tr+=H[a][b]*k[bi][q][ix[a][b]]/(F*s);
    for(a=0;a<3;a++) for(b=a;b<3;b++) { i=ix[a][b]; v_check("conformal_metric",V("BSSN_gxx",i),h[a][b],1e-9); v_check("tracefree_curvature",V("BSSN_Axx",i),k[bi][q][i]/(F*s)-h[a][b]*tr/3,1e-9); }
    v_check("trace_of_curvature",V("BSSN_K",0),tr,1e-9); v_check("conformal_factor",V("BSSN_phi",0),log(s)/4,1e-9);
    v_check("lapse_density",V("BSSN_alphaDensity",0),V("alpha",0)*pow(F*s,-1.5*W[c[3]]),1e-9);
    for(a=0;a<3;a++) { t=0; for(b=0;b<3;b++) for(d=0;d<3;d++) for(e=0;e<3;e++) t+=H[a][b]*H[d][e]*Dg[bi][q][3*ix[b][d]+e]; v_check("contracted_connection",V("BSSN_Gx",a),t,1e-8); } 
    for(i=0;i<6;i++) V("gxx",i)=V("Kxx",i)=777; }
  BSSNtoADM(g);
  for(bi=0;bi<NB;bi++) for(q=0;q<NPT;q++) for(i=0;i<6;i++) { v_check("metric_comes_back",V("gxx",i),m[bi][q][i],1e-8); v_check("curvature_comes_back",V("Kxx",i),k[bi][q][i],1e-8); }
  v_reach("end"); }
/* any values of the BSSN variables; c[0]: metric, c[1]: factor, c[2]: 1 normalize, c[3]: 1 subtract trace, c[4]: boxes, c[5]: points */
void h_alg(int *c)
{ int a, b, i, q, bi; static double m[2][3][6], k[2][3][6]; double fac[3]={1,4,0.25}, ph[3]={0,0.5,-0.25}, PS[3]={1,2,0.5};
  npdbmax=150; AddPar("storage_verbose","no","d"); AddPar("physics","ADMvars BSSN","d"); sgrid_ADMvars(); sgrid_BSSN(); NB=c[4]; NPT=c[5]; g=alloc_grid(NB,nvdb); for(bi=0;bi<NB;bi++) alloc_box(g,bi,NPT,1,1);
  Sets("BSSN_normalizedetg",c[2]?"yes":"no"); Sets("BSSN_subtractA",c[3]?"yes":"no");
  { char *w[]={"gxx","Kxx","psi","BSSN_gxx","BSSN_Axx","BSSN_K","BSSN_phi"}; for(i=0;i<7;i++) enablevar(g,Ind(w[i])); }
  for(bi=0;bi<NB;bi++) for(q=0;q<NPT;q++)
  { sgm(bi||q ? (c[0]+bi+2*q)%4 : c[0],bi+2*q,m[bi][q]); for(i=0;i<6;i++) { V("BSSN_gxx",i)=m[bi][q][i]*fac[(c[1]+bi+q)%3]; V("BSSN_Axx",i)=k[bi][q][i]=in(); V("gxx",i)=V("Kxx",i)=777; } V("BSSN_K",0)=in(); V("BSSN_phi",0)=bi+q ? ph[(bi+q)%3] : in(); V("psi",0)=bi+q ? PS[(bi+q)%3] : in_d(9700,0.5,2); }
  BSSN_enforce_AlgConstr(g);
  for(bi=0;bi<NB;bi++) for(q=0;q<NPT;q++)
  { double s= c[2] ? 1 : fac[(c[1]+bi+q)%3], h[3][3], H[3][3], t=0; for(a=0;a<3;a++) for(b=0;b<3;b++) h[a][b]=m[bi][q][ix[a][b]]; inv(h,H); for(a=0;a<3;a++) for(b=0;b<3;b++) t+=H[a][b]*k[bi][q][ix[a][b]];
    for(i=0;i<6;i++) { v_check("metric_of_determinant_one",V("BSSN_gxx",i),m[bi][q][i]*s,1e-9); v_check("no_trace",V("BSSN_Axx",i),k[bi][q][i]-(c[3]?t*m[bi][q][i]/3:0),1e-9); } }
  BSSNtoADM(g);
  for(bi=0;bi<NB;bi++) for(q=0;q<NPT;q++)
  { double E=exp(4*V("BSSN_phi",0)), p=V("psi",0); for(i=0;i<6;i++) { v_check("metric_from_conformal_metric",V("gxx",i),E*V("BSSN_gxx",i),1e-8); v_check("curvature_from_conformal_curvature",V("Kxx",i),E*p*p*p*p*(V("BSSN_Axx",i)+V("BSSN_K",0)*V("BSSN_gxx",i)/3),1e-7); } }
  v_reach("end"); }
