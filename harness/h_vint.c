/* surface and volume integrals with the elements of coordinates and metric */
#include "vgrid.h"
static tGrid *g; static int nin=1;
static double xofX(void *x, int ind, double X, double Y, double Z) { return X; }
static char *nm[4]={0,"dXdx","dYdx","dZdx"};
static int ia, ig;
static void mk(int nb, int curved)
{
  int a, b, d, i, k;
  vg_start(nb); vg_box(0,2,2,2,0,0,0,"0","1","-1","1","2","5"); if(nb>1) vg_box(1,2,3,2,0,0,0,"1","2","-1","1","2","4"); if(nb>2) vg_box(2,2,2,2,0,0,0,"1","2","-1","1","2","3");
  sgrid_main(); sgrid_MemoryMan(); sgrid_Spectral(); sgrid_Coordinates(); AddVar("a","","d"); AddVar("g","(ij)","d");
  init_FFTW3_plans(0); g=make_grid(0); init_CoordTransform_And_Derivs(g);
  ia=Ind("a"); ig=Ind("gxx"); enablevar(g,ia); enablevar(g,ig);
  for(b=0;b<nb;b++) { tBox *B=g->box[b];
    if(curved) { for(a=1;a<=3;a++) { B->x_of_X[a]=xofX; if(b==0) enablevar(g,Ind(nm[a])); }
      for(a=0;a<3;a++) for(d=0;d<3;d++) for(i=0;i<B->nnodes;i++) B->v[Ind(nm[a+1])+d][i]= (a==d)*(1+0.25*a)+0.125*((a+2*d+i)%3)-0.125; }
    for(k=0;k<6;k++) for(i=0;i<B->nnodes;i++) B->v[ig+k][i]= (k==0||k==3||k==5)*(2+0.25*k)+0.125*((k+i)%4); }
}
static double det3(double m[3][3]) { return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1])-m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0])+m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]); }
static double vol(tBox *B, int curved)
{
  int i, a, d; double s=0, L=1, wy[3]={1./6,4./6,1./6};
  for(d=0;d<3;d++) L*=B->bbox[2*d+1]-B->bbox[2*d];
  for(i=0;i<B->nnodes;i++)
  { double J[3][3], D=1, w= L*0.25*(B->n2==2 ? 0.5 : wy[i/2%3]), v=B->v[ia][i];
    for(a=0;a<3;a++) for(d=0;d<3;d++) J[a][d]= curved ? B->v[Ind(nm[a+1])+d][i] : 0;
    if(curved) D=det3(J);
    if(D==0) continue;
    s+= D>0 ? w*v/D : -w*v/D; }
  return s;
}
/* c[0]: number of boxes, c[1]: curved, c[2]: row of the Jacobian that is symbolic at one point (-1: none), c[3]: inactive box or -1 */
void h_vol(int *c)
{
  int b, i, d; double s=0, x; tBox *B;
  mk(c[0],c[1]);
  for(b=0;b<c[0];b++) for(i=0;i<g->box[b]->nnodes;i++) g->box[b]->v[ia][i]=in_d(nin++,-2,2);
  if(c[1]) { B=g->box[0]; for(d=0;d<3;d++) { B->v[Ind(nm[2])+d][6]=2*(B->v[Ind(nm[1])+d][6]=d-1); }
    if(c[2]>=0) { double J[3][3]; int a; for(d=0;d<3;d++) B->v[Ind(nm[1+c[2]])+d][3]=in_d(nin++,-2,2);
      for(a=0;a<3;a++) for(d=0;d<3;d++) J[a][d]=B->v[Ind(nm[a+1])+d][3]; x=det3(J); v_assume((x>0.1)|(x<-0.1)); } }
  if(c[3]>=0) { intList *l=alloc_intList(); push_intList(l,c[3]); deactivate_boxes(g,l); }
  for(b=0;b<c[0];b++) if(b!=c[3]) { x=vol(g->box[b],c[1]); v_check("box_integral",BoxVolumeIntegral(g->box[b],ia),x,1e-8); s+=x; }
  v_check("grid_integral",GridVolumeIntegral(g,ia),s,1e-8);
  v_reach("end");
}
