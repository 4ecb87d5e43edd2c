/* spin weighted spherical harmonics against the rotation of homogeneous polynomials */
#include "sgrid.h"
#include "vh.h"
#include <math.h>
double Wigner_d_function_WT(int l, int m, int s, double theta);
double Re_sYlm(int l, int m, int s, double theta, double phi); double Im_sYlm(int l, int m, int s, double theta, double phi);
static double fac(int n) { double r=1; while(n>1) r*=n--; return r; }
/* c[0]: l, all m and spins up to l in magnitude; c[1]: only this spin (9: all) */
void h_ylm(int *c)
{ int l=c[0], m, s, i, k; double th=in_d(0,0,3.141592653589793), ph=in_d(1,-7,7), C=cos(th*0.5), S=sin(th*0.5), p[40];
  for(s=-l;s<=l;s++) if(c[1]==9 || c[1]==s)
  { for(i=0;i<=2*l;i++) p[i]=0; p[0]=1;              /* (C u + S v)^(l+s) (-S u + C v)^(l-s), powers of u */
    for(k=0;k<2*l;k++) { double a= k<l+s ? C : -S, b= k<l+s ? S : C; for(i=k+1;i>0;i--) p[i]=a*p[i-1]+b*p[i]; p[0]*=b; }
    for(m=-l;m<=l;m++)
    { double d=p[l+m]*sqrt(fac(l+m)*fac(l-m)/(fac(l+s)*fac(l-s))), n=sqrt((2*l+1)/(4*PI)); if(s%2) n=-n;
      v_check("rotation_matrix",Wigner_d_function_WT(l,m,s,th),d,1e-8);
      v_check("real_part",Re_sYlm(l,m,-s,th,ph),n*d*cos(m*ph),1e-8); v_check("imaginary_part",Im_sYlm(l,m,-s,th,ph),n*d*sin(m*ph),1e-8); } }
  v_reach("end"); }
