/* numerics: LU, root finders, minimisers, attenuation functions */
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include "sgrid_numerics.h"
#include "vh.h"

/* ---- LU: A x = b solved, determinant, parity.  c[0]=n, c[1]=pattern of zeros (bit k: A[k/n][k%n]=0) */
void h_lu(int *c)
{
  int n=c[0],i,j; double (*A)[n]=malloc(sizeof(double)*n*n), (*B)[n]=malloc(sizeof(double)*n*n);
  double *b=malloc(n*sizeof(double)), *x=malloc(n*sizeof(double)), det; int *p=malloc(n*sizeof(int)), par, r;
  for(i=0;i<n;i++) { b[i]= i<c[3] ? 0. : (n<=2 && c[1]) ? in_d(90+i,-1,1) : 0.75*(i+1)-(i==2)*4;
    for(j=0;j<n;j++)
    { int k=i*n+j, t, sy=0;
      /* c[4..]: indices of the symbolic entries (the rest are fixed numbers); all for n<=2 */
      for(t=0;t<3;t++) if(c[4+t]==k+1) sy=1;
      if(n<=2 || sy) A[i][j]= (c[1]>>k)&1 ? 0 : in_d(1+k,-4,4);
      else A[i][j]= (c[1]>>k)&1 ? 0 : (double)(((k*5+c[2]*3+k*k)%11)-5)+0.25*(k%3);
      B[i][j]=A[i][j]; } }
  r=lu_decomp(n,A,p,&par);
  if(r==0)
  {
    double d0=0;
    det=lu_det(n,A,par);
    if(n==1) d0=B[0][0];
    if(n==2) d0=B[0][0]*B[1][1]-B[0][1]*B[1][0];
    if(n==3) d0=B[0][0]*(B[1][1]*B[2][2]-B[1][2]*B[2][1])-B[0][1]*(B[1][0]*B[2][2]-B[1][2]*B[2][0])+B[0][2]*(B[1][0]*B[2][1]-B[1][1]*B[2][0]);
    if(n>3) d0=det;
    v_assume(d0<-0.01 || d0>0.01);
    v_check("det",det,d0,1e-8);
    for(i=0;i<n;i++) x[i]=b[i];
    lu_solve(n,A,p,x);
    for(i=0;i<n;i++) { double s=0; for(j=0;j<n;j++) s+=B[i][j]*x[j]; v_check("residual",s,b[i],1e-7); }
  }
  else
  { /* reported singular: there must be a zero column/row as reported, and the matrix is untouched */
    double s=0;
    v_true("code_range", r>=-n && r<=n);
    for(i=0;i<n;i++) s+= r>0 ? fabs(B[i][r-1]) : fabs(B[-r-1][i]);
    v_check("zero_line",s,0,0);
    for(i=0;i<n;i++) for(j=0;j<n;j++) v_check("untouched",A[i][j],B[i][j],0);
  }
  v_reach("end");
}

/* ---- adversarial functions: every call returns an arbitrary value */
static int ne; static double ex[200], ef[200];
static int simple;
static double adv(double x, void *p)
{ double v; v=in_d(100+ne,-4,4); ex[ne]=x; ef[ne]=v; ne++; return v; }
static void advfdf(double x, void *p, double *f, double *df)
{ *f=adv(x,p); *df=in_d(300+ne,-8,8); }
static int opp(double f1, double f2) { return (f1<=0 && f2>=0) || (f1>=0 && f2<=0); }

/* c[0]=maxits c[1]=0: x1<x2, 1: x1>x2 */
static void ends(int *c, double *x1, double *x2)
{ double l=in_d(1,-1,0), h=in_d(2,0.5,1.5); if(c[2]) { l=0; h=1; } if(c[1]) { *x1=h; *x2=l; } else { *x1=l; *x2=h; } }

void h_rtbrent(int *c)
{
  double x0=-77, x1,x2, xacc= c[3]? 0.3 : 1e-3, w; int r,i,j, m=c[0];
  ne=0; ends(c,&x1,&x2);
  r=rtbrent_brak(&x0,adv,x1,x2,0,m,xacc,0);
  v_true("brackets_exactly", (r<0) == !opp(ef[0],ef[1]));
  if(r>=0)
  {
    v_true("iter_range", r>=1 && r<=m+1);
    v_le("above_low", x1<x2?x1:x2, x0, 1e-12); v_le("below_high", x0, x1<x2?x2:x1, 1e-12);
    if(r<=m)
    { /* x0 is an evaluated point f(x0)=f0 and a point with the other sign is within the accuracy */
      double f0=0; int k=-1, ok=0;
      for(i=ne-1;i>=0;i--) if(ex[i]==x0) { k=i; break; }
      v_true("is_evaluated", k>=0);
      f0=ef[k];
      if(f0==0) ok=1;
      for(i=ne-1;i>=0 && !ok;i--) if(opp(ef[i],f0) && fabs(ex[i]-x0)<=xacc+4e-14*fabs(x0)+1e-13) ok=1;
      v_true("sign_change_within_xacc", ok);
    }
  }
  v_reach("end");
}
void h_newton1d(int *c)
{
  double x0, x1,x2, xacc=1e-3; int r, m=c[0];
  ne=0; ends(c,&x1,&x2); x0=in_d(3,-3,3);
  r=newton1d_brak(&x0,advfdf,x1,x2,0,m,xacc,0);
  v_true("brackets_exactly", (r<0) == !opp(ef[0],ef[1]));
  if(r>=0)
  {
    v_true("iter_range", r<=m+1);
    v_le("above_low", x1<x2?x1:x2, x0, 1e-12); v_le("below_high", x0, x1<x2?x2:x1, 1e-12);
    if(r==0) v_true("end_is_root", (ef[0]==0 && x0==x1) || (ef[1]==0 && x0==x2));
    { /* x0 stays between the closest points of opposite sign seen so far */
      int i; double l=(ef[0]<0)?x1:x2, h=(ef[0]<0)?x2:x1;
      if(ef[0]!=0 && ef[1]!=0)
      { for(i=2;i<ne;i++) { if(ef[i]<0) l=ex[i]; else h=ex[i]; }
        if(ef[ne-1]==0 && ne>2) v_check("root_returned",x0,ex[ne-1],1e-12);
        else { v_le("bracket_lo", l<h?l:h, x0, 1e-12); v_le("bracket_hi", x0, l<h?h:l, 1e-12); } } }
  }
  v_reach("end");
}
void h_rtbisect(int *c)
{
  double x0, x1,x2, xacc=0.2; int r, i, m=c[0];
  ne=0; ends(c,&x1,&x2); x0=in_d(3,-3,3);
  r=rtbisect(&x0,adv,x1,x2,0,m,xacc,0);
  v_true("brackets_exactly", (r<0) == !opp(ef[0],ef[1]));
  if(r>=0)
  {
    double l=(ef[0]<0)?x1:x2, h=(ef[0]<0)?x2:x1;
    v_true("iter_range", r<=m+1);
    v_le("above_low", x1<x2?x1:x2, x0, 1e-12); v_le("below_high", x0, x1<x2?x2:x1, 1e-12);
    if(r==0) v_true("end_is_root", (ef[0]==0 && x0==x1) || (ef[1]==0 && x0==x2));
    else if(ef[0]!=0 && ef[1]!=0)
    { for(i=2;i<ne;i++) { if(ef[i]<0) l=ex[i]; else if(ef[i]>0) h=ex[i]; }
      if(ef[ne-1]==0 && ne>2) v_check("root_returned",x0,ex[ne-1],1e-12);
      else
      { if(r<=m) v_le("root_within_xacc", 0.5*fabs(h-l), xacc, 1e-12);
        v_check("midpoint", x0, 0.5*(l+h), 1e-12); } }
  }
  v_reach("end");
}
void h_rt_brak(int *c)
{
  double x1,x2,a,b; int r,i,f1=-1,f2=-1, m=c[0];
  ne=0; ends(c,&x1,&x2); a=x1; b=x2;
  r=rt_brak(adv,0,&x1,&x2,m);
  for(i=0;i<ne;i++) { if(ex[i]==x1) f1=i; if(ex[i]==x2) f2=i; }
  v_true("evaluated", f1>=0 && f2>=0);
  if(r>0)
  { v_true("opposite_signs", (ef[f1]<0&&ef[f2]>0)||(ef[f1]>0&&ef[f2]<0));
    v_true("count", r<=m && ne==r+1);
    if(a<b) { v_le("contains_lo",x1,a,1e-12); v_le("contains_hi",b,x2,1e-12); }
    else { v_le("contains_lo",x2,b,1e-12); v_le("contains_hi",a,x1,1e-12); } }
  else { v_true("failure_code", r<0); 
         v_true("no_bracket_seen", !((ef[f1]<0&&ef[f2]>0)||(ef[f1]>0&&ef[f2]<0)) || ne==m+2); }
  v_reach("end");
}
void h_minbrent(int *c)
{
  double ax=0, bx=in_d(2,0.3,0.7), cx=1, xm=-9, fm=-9, lo; int r,i,m=c[0];
  ne=0;
  if(c[1]) { ax=1; cx=0; }
  r=minbrent_brak(adv,0,ax,bx,cx,m,1e-2,&xm,&fm,0);
  v_true("iter_range", r>=1 && r<=m+1);
  v_le("above_low",0,xm,1e-12); v_le("below_high",xm,1,1e-12);
  for(i=0;i<ne;i++) v_le("smallest_seen",fm,ef[i],0);
  for(i=0;i<ne;i++) if(ef[i]==fm && ex[i]==xm) break;
  v_true("pair_evaluated", i<ne);
  v_reach("end");
}
void h_min_brak(int *c)
{
  double a=in_d(1,-1,0), b=in_d(2,0.5,1.5), cc,fa,fb,fc; int r,m=c[0],i,k=0;
  ne=0;
  if(c[1]) { double t=a; a=b; b=t; }
  r=min_brak(adv,0,&a,&b,&cc,&fa,&fb,&fc,m);
  v_true("iter_range", r>=1 && r<=m+1);
  if(r<=m)
  { v_le("b_below_a",fb,fa,0); v_le("b_below_c",fb,fc,0);
    v_true("b_between", (a<=b && b<=cc) || (cc<=b && b<=a)); }
  for(i=0;i<ne;i++) { if(ex[i]==a && ef[i]==fa) k|=1; if(ex[i]==b && ef[i]==fb) k|=2; if(ex[i]==cc && ef[i]==fc) k|=4; }
  v_true("pairs_evaluated", k==7);
  v_reach("end");
}
