/* Cartesian derivatives, 3x3 algebra of coordinate derivatives, point location */
#include "vgrid.h"
#include "Coordinates.h"
static double A_[4][4], D_[4][4][4];
/* X-dependent map derivatives: entry (i,m) is A + (point dependent part) */
#define DF(i,m) static double d##i##m(void *a,int ind,double X,double Y,double Z) { return A_[i][m]+0.25*X*i-0.5*Y*m+0.125*Z; }
DF(1,1) DF(1,2) DF(1,3) DF(2,1) DF(2,2) DF(2,3) DF(3,1) DF(3,2) DF(3,3)
#define DDF(i,m,n) static double d##i##m##n(void *a,int ind,double X,double Y,double Z) { return D_[i][m][n]+0.5*X*m-0.25*Y*n+0.75*Z*i; }
#define DDFS(i) DDF(i,1,1) DDF(i,1,2) DDF(i,1,3) DDF(i,2,2) DDF(i,2,3) DDF(i,3,3)
DDFS(1) DDFS(2) DDFS(3)
static double xid(void *a,int ind,double X,double Y,double Z) { return X; }
static tBox *mk(int dd)
{
  tGrid *g; tBox *b; int i;
  AddVar("tv","","x"); AddVar("ti","i","x"); AddVar("tij","ij","x"); AddVar("sij","ij+ji","x"); AddVar("sijk","ijk+jik","x"); AddVar("sijkl","(ij)(kl)","x");
  AddVar("ui","i","x"); AddVar("uij","ij","x"); AddVar("uijk","ijk+ikj","x"); AddVar("si","i","x"); AddVar("dds","ij+ji","x");
  vg_start(1);
  vg_box(0,3,3,3,0,0,0,"0","1","-1","1","2","4");
  g=vg_grid(0); b=g->box[0]; init_CoordTransform_And_Derivs(g);
  for(i=0;i<b->nnodes;i++) ;
  return b;
}
static int nin=1;
static double nx(void) { return in_d(nin++,-1,1); }
static void en(tBox *b, const char *n, int cnt) { int i; for(i=0;i<cnt;i++) enablevar(b->grid, Ind((char*)n)+i); }
/* c[0]: 0 first derivatives, 1 all; c[1]: 1 stored trafo, 0 functions, 2 Cartesian */
void h_chain(int *c)
{
  tBox *b=mk(1); int i,j,m,n,ind; double *u,*o[10],*s[10]; int N=b->nnodes; double *buf=calloc(sizeof(double),40*N);
  int dXd=Ind("dXdx"), ddXd=Ind("ddXddxx");
  for(i=0;i<10;i++) { o[i]=buf+i*N; s[i]=buf+(10+i)*N; } u=buf+20*N;
  for(i=0;i<N;i++) u[i]=in_d(nin++,-1,1);
  if(c[1]!=2) for(i=1;i<=3;i++) b->x_of_X[i]=xid;
  for(i=1;i<=3;i++) for(m=1;m<=3;m++) { A_[i][m]=in_d(nin++,-1,1); for(n=m;n<=3;n++) D_[i][m][n]=in_d(nin++,-1,1); }
  en(b,"X",1); en(b,"Y",1); en(b,"Z",1);
  for(ind=0;ind<N;ind++) { b->v[Ind("X")][ind]=0.25*(ind%3); b->v[Ind("Y")][ind]=-1+0.5*(ind/3%3); b->v[Ind("Z")][ind]=2+0.25*(ind/9); }
#define S(i,m) b->dX_dx[i][m]=d##i##m;
  S(1,1) S(1,2) S(1,3) S(2,1) S(2,2) S(2,3) S(3,1) S(3,2) S(3,3)
#define SS(i,m,n) b->ddX_dxdx[i][m][n]=d##i##m##n;
#define SSS(i) SS(i,1,1) SS(i,1,2) SS(i,1,3) SS(i,2,2) SS(i,2,3) SS(i,3,3)
  SSS(1) SSS(2) SSS(3)
#define V(x) b->v[Ind(x)][ind]
  if(c[1]==1)
  { en(b,"dXdx",9); if(c[0]) en(b,"ddXddxx",18);
    for(ind=0;ind<N;ind++) for(i=1;i<=3;i++) for(m=1;m<=3;m++)
    { b->v[dXd+3*(i-1)+m-1][ind]=b->dX_dx[i][m](b,ind,V("X"),V("Y"),V("Z"));
      if(c[0]) for(n=m;n<=3;n++) b->v[ddXd+6*(i-1)+(m==1?n-1:m+n-1)][ind]=b->ddX_dxdx[i][m][n](b,ind,V("X"),V("Y"),V("Z")); }
    /* the stored values count: the functions now give something else */
    for(i=1;i<=3;i++) for(m=1;m<=3;m++) { b->dX_dx[i][m]=xid; for(n=m;n<=3;n++) b->ddX_dxdx[i][m][n]=xid; } }
  if(c[0]) { cart_partial_all(b,u,o[1],o[2],o[3],o[4],o[5],o[6],o[7],o[8],o[9]); spec_allDerivs(b,u,s[1],s[2],s[3],s[4],s[5],s[6],s[7],s[8],s[9]); }
  else { cart_partials(b,u,o[1],o[2],o[3]); for(i=1;i<=3;i++) spec_Deriv1(b,i,u,s[i]); }
  for(ind=0;ind<N;ind++)
  {
    double J[4][4], H[4][4][4], dd[4][4]; double X=V("X"),Y=V("Y"),Z=V("Z");
    if(c[0]) { dd[1][1]=s[4][ind]; dd[1][2]=dd[2][1]=s[5][ind]; dd[1][3]=dd[3][1]=s[6][ind]; dd[2][2]=s[7][ind]; dd[2][3]=dd[3][2]=s[8][ind]; dd[3][3]=s[9][ind]; }
    for(i=1;i<=3;i++) for(m=1;m<=3;m++) { J[i][m]= c[1]==2 ? (i==m) : A_[i][m]+0.25*X*i-0.5*Y*m+0.125*Z;
      for(n=m;n<=3;n++) H[i][m][n]= c[1]==2 ? 0 : D_[i][m][n]+0.5*X*m-0.25*Y*n+0.75*Z*i; }
    for(m=1;m<=3;m++)
    { double e=0; for(i=1;i<=3;i++) e+=J[i][m]*s[i][ind]; v_check("first",o[m][ind],e,1e-9);
      if(c[0]) for(n=m;n<=3;n++)
      { double e2=0; for(i=1;i<=3;i++) { e2+=H[i][m][n]*s[i][ind]; for(j=1;j<=3;j++) e2+=J[i][m]*J[j][n]*dd[i][j]; }
        v_check("second",o[m==1?3+n:m==2?5+n:9][ind],e2,1e-9); } }
  }
  v_reach("end");
}
/* c[0]: rank 0,1,2; c[1]: useDD */
void h_tens(int *c)
{
  tBox *b=mk(0); int N=b->nnodes, nc=c[0]==0?1:c[0]==1?3:6, i,k,m,n,q; const char *nm[]={"tv","tix","sijxx"}, *d1[]={"six","uijxx","sijkxxx"}, *d2[]={"ddsxx","uijkxxx","sijklxxxx"};
  int iS,iD,iDD; double *w=calloc(sizeof(double),12*N);
  vg_par("Coordinates_useDD",c[1]?"yes":"no");
  en(b,nm[c[0]],nc); en(b,d1[c[0]],3*nc); en(b,d2[c[0]],6*nc);
  iS=Ind((char*)nm[c[0]]); iD=Ind((char*)d1[c[0]]); iDD=Ind((char*)d2[c[0]]);
  for(k=0;k<nc;k++) for(i=0;i<N;i++) b->v[iS+k][i]=in_d(nin++,-1,1);
  if(c[0]==0) D_and_DD_of_S(b,iS,iD,iDD); else if(c[0]==1) D_and_DD_of_Sa(b,iS,iD,iDD); else D_and_DD_of_Sab(b,iS,iD,iDD);
  for(k=0;k<nc;k++)
  {
    spec_allDerivs(b,b->v[iS+k],w,w+N,w+2*N,w+3*N,w+4*N,w+5*N,w+6*N,w+7*N,w+8*N);
    for(q=0;q<3;q++) for(i=0;i<N;i++) v_check("first",b->v[iD+3*k+q][i],w[q*N+i],1e-9);
    for(q=0;q<6;q++) for(i=0;i<N;i++) v_check("second",b->v[iDD+6*k+q][i],w[(3+q)*N+i],1e-9);
  }
  v_reach("end");
}
/* 3x3 matrices */
void h_mat3(int *c)
{
  double M[4][4],I[4][4],P[4][4],T[4][4],B[4][4]; int i,j,k; double det;
  for(i=1;i<=3;i++) for(j=1;j<=3;j++) { M[i][j]=in_d(nin++,-2,2); B[i][j]=in_d(nin++,-2,2); }
  det=DetOf3Dmatrix(M);
  v_check("det",det, M[1][1]*(M[2][2]*M[3][3]-M[2][3]*M[3][2])-M[1][2]*(M[2][1]*M[3][3]-M[2][3]*M[3][1])+M[1][3]*(M[2][1]*M[3][2]-M[2][2]*M[3][1]),1e-9);
  transpose3Dmatrix_from_3Dmatrix(T,M); product_of_3Dmatrices(P,M,B);
  for(i=1;i<=3;i++) for(j=1;j<=3;j++) { double s=0; v_check("transpose",T[i][j],M[j][i],0); for(k=1;k<=3;k++) s+=M[i][k]*B[k][j]; v_check("product",P[i][j],s,1e-9); }
  dxdX_from_dxdU_dUdX(P,M,B);
  for(i=1;i<=3;i++) for(j=1;j<=3;j++) { double s=0; for(k=1;k<=3;k++) s+=M[i][k]*B[k][j]; v_check("chain",P[i][j],s,1e-9); }
  v_assume(det>0.01);
  if(c[0]==0) inverse3Dmatrix_from_3Dmatrix(I,M); else if(c[0]==1) dXdx_from_dxdX(I,M); else dxdX_from_dXdx(I,M);
  for(i=1;i<=3;i++) for(j=1;j<=3;j++) { double s=0; for(k=1;k<=3;k++) s+=I[i][k]*M[k][j]; v_check("inverse",s,i==j,1e-8); }
  v_reach("end");
}
/* second derivatives through a change of variables */
void h_mat3dd(int *c)
{
  double J[4][4],K[4][4],h[4][4][4],g[4][4][4],o[4][4][4]; int i,j,k,l,m,n;
  for(i=1;i<=3;i++) for(j=1;j<=3;j++) { J[i][j]=in_d(nin++,-2,2); K[i][j]=in_d(nin++,-2,2); for(k=1;k<=3;k++) { h[i][j][k]=g[i][j][k]=o[i][j][k]=1e30; if(k>=j) { h[i][j][k]=in_d(nin++,-2,2); g[i][j][k]=in_d(nin++,-2,2); } } }
#define SY(a,i,j,k) ((k)>=(j) ? a[i][j][k] : a[i][k][j])
  if(c[0]==0)
  { ddXdxdx_from_dXdx_ddxdXdX(o,J,h);
    for(i=1;i<=3;i++) for(j=1;j<=3;j++) for(k=j;k<=3;k++)
    { double s=0; for(n=1;n<=3;n++) for(m=1;m<=3;m++) for(l=1;l<=3;l++) s-=J[i][n]*J[m][j]*J[l][k]*SY(h,n,m,l); v_check("ddX",o[i][j][k],s,1e-8); } }
  else
  { ddxdXdX_from_dxdU_dUdX_ddxdUdU_ddUdXdX(o,J,K,h,g);
    for(i=1;i<=3;i++) for(m=1;m<=3;m++) for(n=m;n<=3;n++)
    { double s=0; for(j=1;j<=3;j++) { s+=J[i][j]*g[j][m][n]; for(k=1;k<=3;k++) s+=K[j][m]*K[k][n]*SY(h,i,j,k); } v_check("ddx",o[i][m][n],s,1e-8); } }
  v_reach("end");
}
