/* surface and volume integrals with the elements of coordinates and metric */
#include "vgrid.h"
static tGrid *g; static int nin=1;
static double xofX(void *x, int ind, double X, double Y, double Z) { return X; }
static char *nm[4]={0,"dXdx","dYdx","dZdx"};
static int ia, ig;
static void mk(int nb, int curved)
{
  int a, b, d, i, k;
  vg_start(nb); vg_box(0,2,2,2,0,0,0,"0","1","-1","1","2","5"); if(nb>1) vg_box(1,2,3,2,0,0,0,"1","2","-1","1","2","4"); if(nb>2) vg_box(2,2,2,2,0,0,0,"1","2","-1","1","2","3");
  sgrid_main(); sgrid_MemoryMan(); sgrid_Spectral(); sgrid_Coordinates(); AddVar("a","","d"); AddVar("g","(ij)","d");
  init_FFTW3_plans(0); g=make_grid(0); init_CoordTransform_And_Derivs(g);
  ia=Ind("a"); ig=Ind("gxx"); enablevar(g,ia); enablevar(g,ig);
  for(b=0;b<nb;b++) { tBox *B=g->box[b];
    if(curved) { for(a=1;a<=3;a++) { B->x_of_X[a]=xofX; if(b==0) enablevar(g,Ind(nm[a])); }
      for(a=0;a<3;a++) for(d=0;d<3;d++) for(i=0;i<B->nnodes;i++) B->v[Ind(nm[a+1])+d][i]= (a==d)*(1+0.25*a)+0.125*((a+2*d+i)%3)-0.125; }
    for(k=0;k<6;k++) for(i=0;i<B->nnodes;i++) B->v[ig+k][i]= (k==0||k==3||k==5)*(2+0.25*k)+0.125*((k+i)%4); }
}
static double det3(double m[3][3]) { return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1])-m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0])+m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]); }
/* c[0]: normal direction; c[1]: 0 Cartesian, 1 curved; c[2]: metric; c[3]: 0 symbolic field, 1 symbolic Jacobian entries at one point, 2 symbolic metric at one point; c[4]: which row and column of the Jacobian */
void h_surf(int *c)
{
  int n=c[0]-1, i, a, d, p=(5+(c[3]?0:c[4]))%8; double u[8], U[8], Q[8], S2[8], w; tBox *B;
  mk(1,c[1]); B=g->box[0];
  if(c[3]==1 || c[3]==3) for(d=0;d<3;d++) { B->v[Ind(nm[1+c[4]%3])+d][p]=in_d(nin++,-2,2); if(c[4]>=3) B->v[Ind(nm[1+d])+c[4]%3][p]=in_d(nin++,-2,2); }
  if(c[3]>=2) for(d=0;d<6;d++) B->v[ig+d][p]=in_d(nin++,-2,2);
  for(i=0;i<8;i++) u[i]= i!=p ? 0 : in_d(nin++,0.1,2);
  for(i=0;i<8;i++)
  { double J[3][3], G[3][3], A[3][3], D=1, s=0;
    for(a=0;a<3;a++) for(d=0;d<3;d++) { J[a][d]= c[1] ? B->v[Ind(nm[a+1])+d][i] : (a==d); G[a][d]= c[2] ? B->v[ig+(a<d?a:d)*(5-(a<d?a:d))/2+(a<d?d:a)][i] : (a==d); }
    if(c[1]) D=det3(J); v_assume((D>0.1)|(D<-0.1));
    for(a=0;a<3;a++) for(d=0;d<3;d++) { int a1=(a+1)%3,a2=(a+2)%3,d1=(d+1)%3,d2=(d+2)%3; A[d][a]=G[a1][d1]*G[a2][d2]-G[a1][d2]*G[a2][d1]; }
    for(a=0;a<3;a++) for(d=0;d<3;d++) s+=J[n][a]*A[a][d]*J[n][d];
    v_assume(s*D*D>0); S2[i]=s; Q[i]=D; }
  spec_SurfaceIntegral(B, c[2] ? ig : -1, c[0], u, U);
  w=1; for(d=0;d<3;d++) if(d!=n) w*=(B->bbox[2*d+1]-B->bbox[2*d])/2;
  for(i=0;i<8;i++) { int b=n==0?1:n==1?2:4;
    if((i&b)!=(p&b)) { v_check("other_plane",U[i],0,1e-12); continue; }
    v_check("element",U[i]*U[i]*Q[p]*Q[p],w*w*u[p]*u[p]*S2[p],1e-8); v_true("sign",U[i]>0); }
  v_reach("end");
}
