/* coordinate systems other than cubed spheres, reached through the box's function pointers */
#include "vgrid.h"
#include "Coordinates.h"
static const char *CN[]={"Cartesian","Polar","PolarCE","SphericalDF","compactSphericalDF","Spherical","Spherical2","Spherical3","tan_stretch",
  "AnsorgNS0","AnsorgNS1","AnsorgNS2","AnsorgNS3","outerCubedSphere"};
/* c[0]: system, c[1]: n2 */
void h_coord(int *c)
{
  tGrid *g; tBox *b; double X,Y,Z, x[4], d[4][4]; int i,j,k, n2=c[1]?c[1]:4; double s;
  vg_start(1);
  vg_box(0,3,n2,4,0,2,2,"1","2","0","6.283185307179586","0","6.283185307179586");
  vg_par("box0_Coordinates",CN[c[0]]);
  vg_par("compactSphericalDF_r0","0.5"); vg_par("Coordinates_Spherical3_c","1");
  g=vg_grid(0); b=g->box[0]; init_CoordTransform_And_Derivs(g);
  if(c[0]==1||c[0]==2) { X=in_d(1,0.25,4); Y=in_d(2,0.125,3); Z=in_d(3,-3,3); }
  else if(c[0]==6||c[0]==7) { X=in_d(1,0.25,4); Y=in_d(2,-0.9,0.9); Z=in_d(3,-3,3); }
  else if(c[0]==8) { X=in_d(1,-0.9,0.9); Y=in_d(2,-0.9,0.9); Z=in_d(3,-0.9,0.9); }
  else if(c[0]==4) { X=in_d(1,0.1,0.9); Y=in_d(2,0.125,2); Z=in_d(3,-3,3); }
  else { X=in_d(1,0.25,4); Y=in_d(2,0.125,2); Z=in_d(3,-3,3); }
  for(i=1;i<=3;i++) x[i]=b->x_of_X[i]((void *)b,-1,X,Y,Z);
  for(i=1;i<=3;i++) for(j=1;j<=3;j++) d[i][j]=b->dX_dx[i][j]((void *)b,-1,X,Y,Z);
  v_grad3("dX1_dx",d[1][1],x[1],d[1][2],x[2],d[1][3],x[3],1,1e-8);
  v_grad3("dX2_dx",d[2][1],x[1],d[2][2],x[2],d[2][3],x[3],2,1e-8);
  v_grad3("dX3_dx",d[3][1],x[1],d[3][2],x[2],d[3][3],x[3],3,1e-8);
  if(b->ddX_dxdx[1][1][1])
    for(i=1;i<=3;i++) for(j=1;j<=3;j++)
    {
      double h[4]; char nm[40];
      for(k=1;k<=3;k++) h[k] = j<=k ? b->ddX_dxdx[i][j][k]((void *)b,-1,X,Y,Z) : b->ddX_dxdx[i][k][j]((void *)b,-1,X,Y,Z);
      sprintf(nm,"ddX%d_dx%d",i,j);
      v_chain3(nm,d[i][j],h[1],x[1],h[2],x[2],h[3],x[3],1e-8);
    }
  v_reach("end");
}
