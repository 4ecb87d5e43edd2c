/* coordinate maps of the cubed-sphere wedges */
#include "sgrid.h"
#include "Coordinates.h"
#include "vh.h"

/* general curved surfaces: sigma = s + c1 A + c2 B + c3 A B (symbolic s, c_i) */
static double sg[2][4];
static double FS(tBox *b, int f, double A, double B)
{ return sg[f][0] + sg[f][1]*A + sg[f][2]*B + sg[f][3]*A*B; }
static double dFSA(tBox *b, int f, double A, double B) { return sg[f][1] + sg[f][3]*B; }
static double dFSB(tBox *b, int f, double A, double B) { return sg[f][2] + sg[f][3]*A; }

static tBox *mkbox(int dom, int type, int curved)
{
  static tBox bx; tBox *box=&bx; int i;
  memset(box,0,sizeof(tBox));
  box->n1=box->n2=box->n3=4;
  box->CI->dom=dom; box->CI->type=type;
  box->bbox[0]=0; box->bbox[1]=1; box->bbox[2]=box->bbox[4]=-1; box->bbox[3]=box->bbox[5]=1;
  for(i=1;i<=3;i++) box->CI->xc[i]=(curved>1) ? 0.25*i-0.625 : in_d(10+i,-2,2);
  box->CI->s[0]=in_d(14,1,2); box->CI->s[1]=in_d(15,3.75,6);
  if(curved)
  {
    sg[0][0]=box->CI->s[0]; sg[1][0]=box->CI->s[1];
    for(i=0;i<2;i++)
    {
      if(curved<=1)
      { sg[i][1]=in_d(20+4*i,-0.1,0.1); sg[i][2]=in_d(21+4*i,-0.1,0.1); sg[i][3]=in_d(22+4*i,-0.1,0.1); }
      /* jacobians: one symbolic slope at a time */
      else
      { sg[i][1]= (curved==2) ? in_d(20+4*i,-0.1,0.1) : 0.0625; sg[i][2]= (curved==3) ? in_d(21+4*i,-0.1,0.1) : -0.03125; sg[i][3]= 0; }
      box->CI->iSurf[i]=1; box->CI->idSurfdX[i][2]=1; box->CI->idSurfdX[i][3]=1;
      box->CI->FSurf[i]=FS; box->CI->dFSurfdX[i][2]=dFSA; box->CI->dFSurfdX[i][3]=dFSB;
    }
    box->CI->useF=1;
  }
  return box;
}

/* c[0]=domain, c[1]=type, c[2]=curved */
void h_cub_inverse(int *c)
{
  tBox *box=mkbox(c[0],c[1],c[2]);
  int dir=c[0]/2+1; double pm=2*(c[0]%2)-1;
  double d=in_d(1,0.5,8), a=in_d(2,-1,1), b=in_d(3,-1,1), x,y,z, l,A,B, X,Y,Z; int st;
  double rx,ry,rz;
  /* a point of the wedge: the offset along the wedge axis is d, the others are p=a*d etc;
     inputs are the cartesian offsets */
  double p=in_d(4,-8,8), q=in_d(5,-8,8);
  v_assume(p<d); v_assume(p>-d); v_assume(q<d); v_assume(q>-d);
  if(dir==1) { rx=pm*d; ry=p; rz=q; } else if(dir==2) { ry=pm*d; rx=p; rz=q; } else { rz=pm*d; ry=p; rx=q; }
  x=box->CI->xc[1]+rx; y=box->CI->xc[2]+ry; z=box->CI->xc[3]+rz;
  st=lamAB_of_xyz_CubSph(box,-1,x,y,z,&l,&A,&B);
  v_true("inside_accepted", st==0);
  xyz_of_lamAB_CubSph(box,-1,l,A,B,&X,&Y,&Z);
  v_check("x",X,x,1e-9); v_check("y",Y,y,1e-9); v_check("z",Z,z,1e-9);
  v_reach("end");
}
void h_cub_jac(int *c)
{
  tBox *box=mkbox(c[0],c[1],c[2]);
  double l=in_d(1,0,1), A=in_d(2,-1,1), B=in_d(3,-1,1), x,y,z, x2,y2,z2; 
  double dl[4],dA[4],dB[4]; int i,j;
  dlamAB_dxyz_CubSph(box,-1,l,A,B,&x,&y,&z,dl+1,dl+2,dl+3,dA+1,dA+2,dA+3,dB+1,dB+2,dB+3);
  xyz_of_lamAB_CubSph(box,-1,l,A,B,&x2,&y2,&z2);
  v_check("x",x,x2,1e-9); v_check("y",y,y2,1e-9); v_check("z",z,z2,1e-9);
  /* sum_j dX^i/dx^j dx^j/dX^k = delta_ik, written as d/dX^k of the scalar sum_j c_j x^j */
  for(i=0;i<3;i++)
  {
    double *d= i==0?dl:i==1?dA:dB;
    v_grad3(i==0?"dlam":i==1?"dA":"dB", d[1],x2, d[2],y2, d[3],z2, i+1, 1e-8);
  }
  v_reach("end");
}
