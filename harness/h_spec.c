/* spectral transforms and derivatives on real boxes */
#include "vgrid.h"
#include "Spectral.h"

/* c[0..2]=n, c[3..5]=basis, c[6]=transform kind (0 default, 1 NUMREC, 2 FFTW3) */
static tGrid *G; static tBox *B;
static const char *lo[]={"-0.5","0","-2"}, *hi[]={"2.25","6.283185307179586","3"};
static int *FILT=0;
static void setup(int *c)
{
  int d;
  vg_start(1);
  if(c[6]>=10) { lo[0]=lo[1]=lo[2]="-1.25"; hi[0]=hi[1]=hi[2]="2.5"; }
  vg_box(0,c[0],c[1],c[2],c[3],c[4],c[5],lo[0],hi[0],lo[1],hi[1],lo[2],hi[2]);
  if(c[6]%10) for(d=1;d<=3;d++) vg_trafo(0,d, c[6]%10==1?"1 NUMREC_FFT":"1 FFTW3");
  if(FILT) for(d=0;d<3;d++) { char s[50]; sprintf(s,"box0_filter%d",d+1); vg_pari(s,FILT[d]); }
  G=vg_grid(0); B=G->box[0];
}
static double *fill(int n, int k0) { int i; double *u=calloc(n,sizeof(double)); for(i=0;i<n;i++) u[i]=in_d(k0+i,-1,1); return u; }

/* analysis followed by synthesis returns the data, and vice versa, in every direction */
void h_trafo(int *c)
{
  int N,d,i; double *u,*cc,*v;
  setup(c); N=B->nnodes;
  u=fill(N,0); cc=calloc(N,sizeof(double)); v=calloc(N,sizeof(double));
  for(d=1;d<=3;d++)
  {
    spec_analysis1(B,d,u,cc); spec_synthesis1(B,d,v,cc);
    for(i=0;i<N;i++) v_check("synthesis_of_analysis",v[i],u[i],1e-10);
    spec_synthesis1(B,d,v,u); spec_analysis1(B,d,v,cc);
    for(i=0;i<N;i++) v_check("analysis_of_synthesis",cc[i],u[i],1e-10);
  }
  spec_Coeffs(B,u,cc); spec_Eval(B,v,cc);
  for(i=0;i<N;i++) v_check("eval_of_coeffs",v[i],u[i],1e-9);
  v_reach("end");
}

/* ---------- resolved functions: tensor products of basis functions with symbolic coefficients ---------- */
static int BASIS[4], NN[4]; static double AA[4], LL[4];
static void geom(int *c)
{ int d; for(d=1;d<=3;d++) { BASIS[d]=c[2+d]; NN[d]=c[d-1]; AA[d]=B->bbox[2*(d-1)]; LL[d]=B->bbox[2*(d-1)+1]-AA[d]; } }
/* number of exactly resolved functions along d (the Nyquist mode is left out) */
static int nres(int d) { if(BASIS[d]==4) return 1; if(BASIS[d]==3) return NN[d]<3?NN[d]:3; return BASIS[d]==2 ? 2*((NN[d]-1)/2)+1 : NN[d]; }
/* value (der=0), 1st or 2nd derivative or integral from A to x (der=-1) of the a-th function */
static double phi(int d, int a, double x, int der)
{
  if(BASIS[d]==2)
  {
    int k=(a+1)/2; double K=2*PI*k/LL[d], t=K*(x-AA[d]);
    if(a==0) return der==0 ? 1 : der==-1 ? x-AA[d] : 0;
    if(a%2) { if(der==0) return cos(t); if(der==1) return -K*sin(t); if(der==2) return -K*K*cos(t); return sin(t)/K; }
    if(der==0) return sin(t); if(der==1) return K*cos(t); if(der==2) return -K*K*sin(t); return (1-cos(t))/K;
  }
  else
  {
    double t=(x-AA[d])/LL[d], p=1; int i;
    if(der==-1) { for(i=0;i<=a;i++) p*=t; return p*LL[d]/(a+1); }
    if(der>a) return 0;
    for(i=0;i<a-der;i++) p*=t;
    if(der==0) return p; if(der==1) return p*a/LL[d]; return p*a*(a-1)/(LL[d]*LL[d]);
  }
}
static double node(int d, int i)   /* documented collocation points */
{
  int n=NN[d];
  if(BASIS[d]==2 || BASIS[d]==4) return AA[d]+LL[d]*i/n;
  if(BASIS[d]==3) return AA[d]+LL[d]*i/(n-1);
  if(BASIS[d]==0) return AA[d]+LL[d]*0.5*(1-cos(PI*i/(n-1)));
  return AA[d]+LL[d]*0.5*(1-cos(PI*(i+0.5)/n));
}
static double CF[512]; static int M1,M2,M3;
static void coefs(int cut) { int i; M1=nres(1)-cut; M2=nres(2)-cut; M3=nres(3)-cut;
  if(M1<1) M1=1; if(M2<1) M2=1; if(M3<1) M3=1;
  for(i=0;i<M1*M2*M3;i++) CF[i]=in_d(i,-1,1); }
static double fu(double X, double Y, double Z, int d1, int d2, int d3)
{
  double s=0; int a,b,e;
  for(a=0;a<M1;a++) for(b=0;b<M2;b++) for(e=0;e<M3;e++) s+=CF[a+M1*(b+M2*e)]*phi(1,a,X,d1)*phi(2,b,Y,d2)*phi(3,e,Z,d3);
  return s;
}
static double *funod(int d1,int d2,int d3)
{
  int i,j,k,n1=NN[1],n2=NN[2],n3=NN[3]; double *u=calloc(n1*n2*n3,sizeof(double));
  for(k=0;k<n3;k++) for(j=0;j<n2;j++) for(i=0;i<n1;i++) u[Index(i,j,k)]=fu(node(1,i),node(2,j),node(3,k),d1,d2,d3);
  return u;
}
static void same(const char *nm, double *u, double *v, int N) { int i; for(i=0;i<N;i++) v_check(nm,u[i],v[i],1e-8); }

/* nodes: the grid points are the documented ones */
void h_nodes(int *c)
{
  int i,j,k,n1,n2,n3; setup(c); geom(c); n1=NN[1]; n2=NN[2]; n3=NN[3];
  v_true("npoints", B->nnodes==n1*n2*n3 && B->n1==n1 && B->n2==n2 && B->n3==n3);
  for(k=0;k<n3;k++) for(j=0;j<n2;j++) for(i=0;i<n1;i++)
  {
    v_check("X",B->v[Ind("X")][Index(i,j,k)],node(1,i),1e-10);
    v_check("Y",B->v[Ind("Y")][Index(i,j,k)],node(2,j),1e-10);
    v_check("Z",B->v[Ind("Z")][Index(i,j,k)],node(3,k),1e-10);
  }
  v_reach("end");
}
/* c[7]: second_deriv_order, 0 = default */
static void poison(double **w, int N) { int i, j; for(i=0;i<9;i++) for(j=0;j<N;j++) w[i][j]=777; }
static void all9(double **w, int N)
{ same("all_d1",w[0],funod(1,0,0),N); same("all_d2",w[1],funod(0,1,0),N); same("all_d3",w[2],funod(0,0,1),N);
  same("all_d11",w[3],funod(2,0,0),N); same("all_d12",w[4],funod(1,1,0),N); same("all_d13",w[5],funod(1,0,1),N);
  same("all_d22",w[6],funod(0,2,0),N); same("all_d23",w[7],funod(0,1,1),N); same("all_d33",w[8],funod(0,0,2),N); }
void cheb_Deriv1(tBox *box, int direc, double *u, double *du);
void cheb_allDerivs(tBox *box, double *u, double *u1, double *u2, double *u3, double *u11,double *u12,double *u13, double *u22,double *u23,double *u33 );
void spec_Deriv1_diffmatrix(tBox *box, int direc, double *u, double *du);
void spec_Deriv2_diffmatrix(tBox *box, int direc, double *u, double *du);
void spec_allDerivs_diffmatrix(tBox *box, double *u, double *u1, double *u2, double *u3, double *u11,double *u12,double *u13, double *u22,double *u23,double *u33 );
void h_derivs(int *c)
{
  double *u,*w[9]; int i,N,q,ex; 
  setup(c); geom(c); coefs(0); N=B->nnodes;
  if(c[7]) Seti("Spectral_second_deriv_order",c[7]);
  u=funod(0,0,0); ex= c[3]==0 && c[4]==0 && c[5]==0;
  for(i=0;i<9;i++) w[i]=calloc(N,sizeof(double));
  for(q=0;q<2+ex;q++)
  { poison(w,N);
    for(i=0;i<3;i++) { if(q==0) spec_Deriv1(B,i+1,u,w[i]); else if(q==1) spec_Deriv1_diffmatrix(B,i+1,u,w[i]); else cheb_Deriv1(B,i+1,u,w[i]); }
    same("deriv1_dir1",w[0],funod(1,0,0),N); same("deriv1_dir2",w[1],funod(0,1,0),N); same("deriv1_dir3",w[2],funod(0,0,1),N); }
  for(q=0;q<2;q++)
  { poison(w,N);
    for(i=0;i<3;i++) { if(q==0) spec_Deriv2(B,i+1,u,w[i]); else spec_Deriv2_diffmatrix(B,i+1,u,w[i]); }
    same("deriv2_dir1",w[0],funod(2,0,0),N); same("deriv2_dir2",w[1],funod(0,2,0),N); same("deriv2_dir3",w[2],funod(0,0,2),N); }
  for(q=0;q<2+ex;q++)
  { poison(w,N);
    if(q==0) spec_allDerivs(B,u,w[0],w[1],w[2],w[3],w[4],w[5],w[6],w[7],w[8]);
    else if(q==1) spec_allDerivs_diffmatrix(B,u,w[0],w[1],w[2],w[3],w[4],w[5],w[6],w[7],w[8]);
    else cheb_allDerivs(B,u,w[0],w[1],w[2],w[3],w[4],w[5],w[6],w[7],w[8]);
    all9(w,N); }
  v_reach("end");
}
/* interpolation at a fixed set of points not on the grid, all coefficients symbolic */
void h_interp(int *c)
{
  double *u,*cc,f[3],X,Y,Z; int N,i,d,p,q,n1,n2,n3; static double fr[]={0,0.13,0.5,0.77,1};
  setup(c); geom(c); coefs(0); N=B->nnodes; n1=NN[1]; n2=NN[2]; n3=NN[3];
  u=funod(0,0,0); cc=calloc(N,sizeof(double));
  spec_Coeffs(B,u,cc);
  for(i=0;i<5;i++)
  {
    X=AA[1]+LL[1]*fr[i]; Y=AA[2]+LL[2]*fr[(2*i+1)%5]; Z=AA[3]+LL[3]*fr[(3*i+2)%5];
    v_check("interpolate",spec_interpolate(B,cc,X,Y,Z),fu(X,Y,Z,0,0,0),1e-8);
  }
  /* in planes */
  for(d=1;d<=3;d++)
  {
    p=d%NN[d]; for(i=0;i<N;i++) cc[i]=0;
    spec_Coeffs_inplaneN(B,d,p,u,cc);
    for(i=0;i<5;i++)
    {
      double P=node(d,p), Q, R;
      X=AA[1]+LL[1]*fr[i]; Y=AA[2]+LL[2]*fr[(2*i+1)%5]; Z=AA[3]+LL[3]*fr[(3*i+2)%5];
      if(d==1) { X=P; Q=Y; R=Z; } else if(d==2) { Y=P; Q=X; R=Z; } else { Z=P; Q=X; R=Y; }
      v_check("interpolate_inplane",spec_interpolate_inplaneN(B,d,p,cc,Q,R),fu(X,Y,Z,0,0,0),1e-8);
    }
    { double *w=calloc(N,sizeof(double)); int a,b,e;
      spec_Eval_inplaneN(B,d,p,w,cc);
      for(e=0;e<n3;e++) for(b=0;b<n2;b++) for(a=0;a<n1;a++) { int ijk[4]; ijk[1]=a; ijk[2]=b; ijk[3]=e;
        if(ijk[d]==p) v_check("eval_inplane",w[Index(a,b,e)],u[Index(a,b,e)],1e-8); } }
  }
  /* along lines */
  for(d=1;d<=3;d++)
  {
    spec_analysis1(B,d,u,cc);
    for(q=0;q<3;q++)
    {
      int o1=(d==1)?2:1, o2=(d==3)?2:3, i1=q%NN[o1], i2=(q+1)%NN[o2];
      double x3=AA[d]+LL[d]*fr[q+1];
      f[0]=f[1]=f[2]=0;
      { double P[4]; P[d]=x3; P[o1]=node(o1,i1); P[o2]=node(o2,i2);
        v_check("interpolate_line",spec_interpolate_in_dir_at_i1_i2(B,d,i1,i2,cc,x3),fu(P[1],P[2],P[3],0,0,0),1e-8); }
    }
  }
  /* basis row vector */
  for(d=1;d<=3;d++)
  {
    double *BM=calloc(NN[d],sizeof(double)), *line=calloc(NN[d],sizeof(double)), s=0, P[4]; int o;
    P[1]=node(1,0); P[2]=node(2,0); P[3]=node(3,0);
    for(i=0;i<NN[d];i++) { for(o=0;o<1;o++) P[d]=node(d,i); line[i]=fu(P[1],P[2],P[3],0,0,0); }
    P[d]=AA[d]+LL[d]*0.31;
    spec_Basis_times_CoeffMatrix_direc(B,d,BM,P[d]);
    for(i=0;i<NN[d];i++) s+=BM[i]*line[i];
    v_check("basis_times_coeffs",s,fu(P[1],P[2],P[3],0,0,0),1e-8);
  }
  v_reach("end");
}
/* integrals of resolved functions */
void spec_definiteInt1(tBox *box, int direc, double a, double b, double *u, double *U);
void h_integ(int *c)
{
  double *u,*U,*W,e; int N,i,j,k,d,n1,n2,n3; double E1,E2,E3;
  setup(c); geom(c); coefs(c[7]); N=B->nnodes; n1=NN[1]; n2=NN[2]; n3=NN[3];
  E1=AA[1]+LL[1]; E2=AA[2]+LL[2]; E3=AA[3]+LL[3];
  u=funod(0,0,0); U=calloc(N,sizeof(double)); W=calloc(N,sizeof(double));
  for(d=1;d<=3;d++)
  {
    spec_Integral1(B,d,u,U);
    for(k=0;k<n3;k++) for(j=0;j<n2;j++) for(i=0;i<n1;i++)
    {
      double x=node(1,i), y=node(2,j), z=node(3,k);
      e = d==1 ? fu(E1,y,z,-1,0,0) : d==2 ? fu(x,E2,z,0,-1,0) : fu(x,y,E3,0,0,-1);
      v_check("integral_1d",U[Index(i,j,k)],e,1e-8);
    }
    spec_2dIntegral(B,d,u,U);
    for(k=0;k<n3;k++) for(j=0;j<n2;j++) for(i=0;i<n1;i++)
    {
      double x=node(1,i), y=node(2,j), z=node(3,k);
      e = d==1 ? fu(x,E2,E3,0,-1,-1) : d==2 ? fu(E1,y,E3,-1,0,-1) : fu(E1,E2,z,-1,-1,0);
      v_check("integral_2d",U[Index(i,j,k)],e,1e-8);
    }
  }
  v_check("integral_3d",spec_3dIntegral(B,u,U),fu(E1,E2,E3,-1,-1,-1),1e-8);
  v_reach("end");
}
/* indefinite integral (needs one free coefficient per direction) and definite integral over a subinterval */
void h_indef(int *c)
{
  double *u,*U,*W; int N,i,j,k,d,n1,n2,n3;
  setup(c); geom(c); coefs(1); N=B->nnodes; n1=NN[1]; n2=NN[2]; n3=NN[3];
  u=funod(0,0,0); U=calloc(N,sizeof(double)); W=calloc(N,sizeof(double));
  for(d=1;d<=3;d++)
  {
    spec_Int1(B,d,u,U);
    for(k=0;k<n3;k++) for(j=0;j<n2;j++) for(i=0;i<n1;i++)
    {
      double x=node(1,i), y=node(2,j), z=node(3,k), x0=node(1,0), y0=node(2,0), z0=node(3,0), e; int i0;
      e  = d==1 ? fu(x,y,z,-1,0,0) : d==2 ? fu(x,y,z,0,-1,0) : fu(x,y,z,0,0,-1);
      e -= d==1 ? fu(x0,y,z,-1,0,0) : d==2 ? fu(x,y0,z,0,-1,0) : fu(x,y,z0,0,0,-1);
      i0 = d==1 ? Index(0,j,k) : d==2 ? Index(i,0,k) : Index(i,j,0);
      v_check("indefinite_integral",U[Index(i,j,k)]-U[i0],e,1e-8);
    }
    if(BASIS[d]==2) continue;
    spec_Deriv1(B,d,U,W);
    same("derivative_of_indefinite_integral",W,u,N);
    { double a=AA[d]+0.2*LL[d], b=AA[d]+0.9*LL[d], e;
      spec_definiteInt1(B,d,a,b,u,U);
      for(k=0;k<n3;k++) for(j=0;j<n2;j++) for(i=0;i<n1;i++)
      {
        double x=node(1,i), y=node(2,j), z=node(3,k);
        e = d==1 ? fu(b,y,z,-1,0,0)-fu(a,y,z,-1,0,0) : d==2 ? fu(x,b,z,0,-1,0)-fu(x,a,z,0,-1,0) : fu(x,y,b,0,0,-1)-fu(x,y,a,0,0,-1);
        v_check("definite_integral",U[Index(i,j,k)],e,1e-8);
      } }
  }
  v_reach("end");
}

/* filters: c[7..9] = box0_filter1..3 */
void h_filter(int *c)
{
  double *u,*v,*cc,*w; int N,i,j,k,d,n1,n2,n3; 
  FILT=c+7;
  setup(c); geom(c); N=B->nnodes; n1=NN[1]; n2=NN[2]; n3=NN[3];
  u=fill(N,0); v=calloc(N,sizeof(double)); cc=calloc(N,sizeof(double)); w=calloc(N,sizeof(double));
  for(d=1;d<=3;d++)
  {
    int nf=c[6+d];
    for(i=0;i<N;i++) v[i]=u[i];
    spec_filter1(B,d,v);
    /* the top nf coefficients vanish, the others are unchanged */
    spec_analysis1(B,d,v,cc); spec_analysis1(B,d,u,w);
    for(k=0;k<n3;k++) for(j=0;j<n2;j++) for(i=0;i<n1;i++)
    { int q = d==1?i:d==2?j:k; int x=Index(i,j,k); if(nf<=0 || q<NN[d]-nf) v_check("kept",cc[x],w[x],1e-8); else v_check("removed",cc[x],0,1e-8); }
    /* idempotent */
    for(i=0;i<N;i++) w[i]=v[i];
    spec_filter1(B,d,w);
    for(i=0;i<N;i++) v_check("idempotent",w[i],v[i],1e-8);
  }
  /* 3d filter */
  { int vi=Ind("X"), ci=Ind("Y"), nf1=NN[1]-1, nf2=NN[2]-c[8], nf3=NN[3]-c[9];
    for(i=0;i<N;i++) B->v[vi][i]=u[i];
    spec_filter3d_inbox(B,vi,ci,nf1,nf2,nf3);
    spec_Coeffs(B,u,w); spec_Coeffs(B,B->v[vi],cc);
    for(k=0;k<n3;k++) for(j=0;j<n2;j++) for(i=0;i<n1;i++)
    { int x=Index(i,j,k); if(i<nf1 && j<nf2 && k<nf3) v_check("kept3d",cc[x],w[x],1e-8); else v_check("removed3d",cc[x],0,1e-8); }
  }
  v_reach("end");
}
/* angular integrals on the doubled sphere: direction 2 is theta-shift over [0,2pi), direction 3 is phi */
void h_dfint(int *c)
{
  double *u,*U,*W; int N,i,j,k,a,n1,n2,n3,na; double sh;
  setup(c); geom(c); N=B->nnodes; n1=NN[1]; n2=NN[2]; n3=NN[3];
  u=calloc(N,sizeof(double)); U=calloc(N,sizeof(double)); W=calloc(N,sizeof(double));
  na=(n2-1)/2+1; sh=PI/((1+n2%2)*n2);
  for(k=0;k<na*n1*2;k++) CF[k]=in_d(k,-1,1);
  for(k=0;k<n3;k++) for(j=0;j<n2;j++) for(i=0;i<n1;i++) for(a=0;a<na;a++)
  {
    double th=node(2,j)-AA[2]+sh, ph=2*PI*(node(3,k)-AA[3])/LL[3];
    u[Index(i,j,k)]+=CF[a+na*i]*cos(a*th) + (n3>2 ? CF[a+na*i+na*n1]*cos(a*th)*cos(ph) : 0);
  }
  spec_sphericalDF2dIntegral(B,u,U);
  for(i=0;i<n1;i++)
  {
    double e=0, r=node(1,i);
    for(a=0;a<na;a+=2) e+=CF[a+na*i]*2.0/(1.0-a*a);
    e*=LL[3]*r*r*LL[2]/(2*PI);
    for(k=0;k<n3;k++) for(j=0;j<n2;j++) v_check("sphere_integral",U[Index(i,j,k)],e,1e-8);
    spec_sphericalDF2dIntegral_at_radial_index_i(B,u,W,i);
    for(k=0;k<n3;k++) for(j=0;j<n2;j++) v_check("sphere_integral_at_i",W[Index(i,j,k)],e,1e-8);
  }
  spec_Integral1(B,1,U,W); v_check("ball_integral",spec_sphericalDF3dIntegral(B,u,U),W[0],1e-8);
  v_reach("end");
}
/* finite differences along lines of arbitrary node positions and data */
void h_fd(int *c)
{
  int n=c[0], i, j; double x[12], u[12], d[12], L=2.5, h, a=-1;
  if(c[1]<2)
  {
    h = c[1] ? L/n : L/(n-1);
    for(i=0;i<n;i++) u[i]=in_d(i,-2,2);
    if(c[1]) fd2_deriv_periodic(0,a,a+L,u,d,n-1); else fd2_deriv_onesidedBC(0,a,a+L,u,d,n-1);
    for(i=0;i<n;i++)
    {
      double e;
      if(c[1] || (i>0 && i<n-1)) e=(u[(i+1)%n]-u[(i+n-1)%n])/(2*h);
      else if(i==0) e=(-3*u[0]+4*u[1]-u[2])/(2*h);
      else e=(3*u[n-1]-4*u[n-2]+u[n-3])/(2*h);
      v_check("fd2",d[i],e,1e-9);
    }
    if(c[1]) fd2_2ndderiv_periodic(0,a,a+L,u,d,n-1); else fd2_2ndderiv_onesidedBC(0,a,a+L,u,d,n-1);
    for(i=0;i<n;i++)
      if(c[1] || (i>0 && i<n-1)) v_check("fd2_second",d[i],(u[(i+1)%n]-2*u[i]+u[(i+n-1)%n])/(h*h),1e-9);
    if(!c[1])
    { /* exact on polynomials of degree 2 */
      for(i=0;i<n;i++) { double t=a+i*h; d[i]=0; u[i]=in_d(0,-2,2)+in_d(1,-2,2)*t+in_d(2,-2,2)*t*t; }
      fd2_2ndderiv_onesidedBC(0,a,a+L,u,d,n-1);
      for(i=0;i<n;i++) v_check("fd2_second_quadratic",d[i],2*in_d(2,-2,2),1e-8);
    }
  }
  else
  {
    x[0]=in_d(20,-1,1);
    for(i=1;i<n;i++) x[i]=x[i-1]+in_d(20+i,0.25,2);
    for(i=0;i<n;i++) u[i]=in_d(i,-2,2);
    if(c[1]==2)
    {
      fdcentered_deriv_onesidedBC(x,u,d,n-1);
      for(i=1;i<n-1;i++) v_check("centered",d[i]*(x[i+1]-x[i-1]),u[i+1]-u[i-1],1e-9);
      v_check("left",d[0]*(x[1]-x[0]),u[1]-u[0],1e-9); v_check("right",d[n-1]*(x[n-1]-x[n-2]),u[n-1]-u[n-2],1e-9);
    }
    if(c[1]==3)
    {
      fdDp_deriv_onesidedBC(x,u,d,n-1);
      for(i=0;i<n-1;i++) v_check("forward",d[i]*(x[i+1]-x[i]),u[i+1]-u[i],1e-9);
      for(j=0;j<1;j++) v_check("forward_end",d[n-1]*(x[n-1]-x[n-2]),u[n-1]-u[n-2],1e-9);
    }
    if(c[1]==4)
    {
      fdDm_deriv_onesidedBC(x,u,d,n-1);
      for(i=1;i<n;i++) v_check("backward",d[i]*(x[i]-x[i-1]),u[i]-u[i-1],1e-9);
      v_check("backward_end",d[0]*(x[1]-x[0]),u[1]-u[0],1e-9);
    }
  }
  v_reach("end");
}
