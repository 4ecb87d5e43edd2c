/* point location in Cartesian boxes: the point looked for is symbolic */
#include "vgrid.h"
#include "Coordinates.h"
static tGrid *g; static int nin=1;
static tGrid *mk(int nb, int n1, int n2, int n3)
{
  int b,i,d;
  vg_start(nb);
  vg_box(0,n1,n2,n3,0,0,0,"0","1","-1","1","2","4");
  if(nb>1) vg_box(1,2,3,2,0,0,0,"1","3","-2","1","2","3");
  if(nb>2) vg_box(2,2,2,2,0,0,0,"0.5","2","-2","3","3","5");
  g=vg_grid(0); init_CoordTransform_And_Derivs(g);
  for(b=0;b<nb;b++) { tBox *B=g->box[b];
    enablevar(g,Ind("X")); enablevar(g,Ind("Y")); enablevar(g,Ind("Z")); enablevar(g,Ind("x")); enablevar(g,Ind("y")); enablevar(g,Ind("z")); }
  for(b=0;b<nb;b++) { tBox *B=g->box[b]; int n[3]; n[0]=B->n1; n[1]=B->n2; n[2]=B->n3;
    for(i=0;i<B->nnodes;i++) { int id[3]; id[0]=i%n[0]; id[1]=i/n[0]%n[1]; id[2]=i/n[0]/n[1];
      for(d=0;d<3;d++) { double v=B->bbox[2*d]+(B->bbox[2*d+1]-B->bbox[2*d])*id[d]/(n[d]-1);
        B->v[Ind(d==0?"X":d==1?"Y":"Z")][i]=v; B->v[Ind(d==0?"x":d==1?"y":"z")][i]= d==0 ? v+0.1*id[1] : v; } } }
  return g;
}
#define IN(B,p,e) ((p)[0]>=(B)->bbox[0]-(e)&&(p)[0]<=(B)->bbox[1]+(e)&&(p)[1]>=(B)->bbox[2]-(e)&&(p)[1]<=(B)->bbox[3]+(e)&&(p)[2]>=(B)->bbox[4]-(e)&&(p)[2]<=(B)->bbox[5]+(e))
static double r2(tBox *B,int i,const double *p) { double s=0; int d; for(d=0;d<3;d++) { double q=B->v[Ind(d==0?"x":d==1?"y":"z")][i]-p[d]; s+=q*q; } return s; }
/* c[0]: 0 all boxes, 1 in a list; c[1]: number of boxes */
void h_box(int *c)
{
  double p[3], X,Y,Z; int bi, i, nl, l[3]; tGrid *g=mk(c[1],2,2,2);
  p[0]=in_d(nin++,-1,4); p[1]=in_d(nin++,-3,4); p[2]=in_d(nin++,1,6); X=Y=Z=7;
  if(c[0]==0) { bi=b_XYZ_of_xyz(g,&X,&Y,&Z,p[0],p[1],p[2]); nl=c[1]; for(i=0;i<nl;i++) l[i]=i; }
  else { nl=c[1]-1; for(i=0;i<nl;i++) l[i]=c[1]-1-i; bi=b_XYZ_of_xyz_inboxlist(g,l,nl,&X,&Y,&Z,p[0],p[1],p[2]); }
  if(bi>=0)
  { int k=0; for(i=0;i<nl;i++) if(l[i]==bi) k=1;
    v_true("listed",k); v_true("inside",IN(g->box[bi],p,1e-8));
    v_true("coord_inside",X>=g->box[bi]->bbox[0]&&X<=g->box[bi]->bbox[1]&&Y>=g->box[bi]->bbox[2]&&Y<=g->box[bi]->bbox[3]&&Z>=g->box[bi]->bbox[4]&&Z<=g->box[bi]->bbox[5]);
    v_check("X",X,p[0],1e-8); v_check("Y",Y,p[1],1e-8); v_check("Z",Z,p[2],1e-8);
    for(i=0;i<nl&&l[i]!=bi;i++) v_true("first_match",!IN(g->box[l[i]],p,0)); }
  else { for(i=0;i<nl;i++) v_true("missed",!IN(g->box[l[i]],p,0)); v_check("guess_kept",X,7,0); }
  v_reach("end");
}
/* c[0]: 0 box, 1 grid, 2 list, 3 interior, 4..6 plane; c[1]: 1 restricts the point to one value of z */
void h_near(int *c)
{
  double p[3], X=0,Y=0,Z=0,r; int ind=-1,b=0,i,k; tGrid *g; int m=c[0]; int n1=2,n2=2,n3=2; tBox *B;
  if(m==3) { n1=5; n2=3; n3=4; } else if(m==4) { n1=4; n2=2; n3=3; } else if(m==5) { n1=3; n2=4; n3=2; } else if(m==6) { n1=2; n2=3; n3=4; } else if(m==0) n1=3;
  g=mk(m==1?2:m==2?3:1,n1,n2,n3);
  p[0]=in_d(nin++,-1,4); p[1]=in_d(nin++,-3,4); p[2]= c[1] ? 2.7 : in_d(nin++,1,6);
  if(m==0) r=nearestXYZ_of_xyz(g->box[0],&ind,&X,&Y,&Z,p[0],p[1],p[2]);
  else if(m==1) r=nearest_b_XYZ_of_xyz(g,&b,&ind,&X,&Y,&Z,p[0],p[1],p[2]);
  else if(m==2) { int l[2]={2,1}; r=nearest_b_XYZ_of_xyz_inboxlist(g,l,2,&b,&ind,&X,&Y,&Z,p[0],p[1],p[2]); v_true("listed",b==1||b==2); }
  else if(m==3) r=nearestinnerXYZ_of_xyz(g->box[0],&ind,&X,&Y,&Z,p[0],p[1],p[2]);
  else r=nearestXYZ_of_xyz_inplane(g->box[0],&ind,&X,&Y,&Z,p[0],p[1],p[2],m-3,1);
  B=g->box[b];
  v_true("range",ind>=0&&ind<B->nnodes);
  v_check("X",X,B->v[Ind("X")][ind],0); v_check("Y",Y,B->v[Ind("Y")][ind],0); v_check("Z",Z,B->v[Ind("Z")][ind],0);
  v_check("distance",r*r,r2(B,ind,p),1e-9); v_true("sign",r>=0);
  for(k=0;k<g->nboxes;k++) { if(m==2&&k==0) continue;
    for(i=0;i<g->box[k]->nnodes;i++)
    { int a=i%n1, e=i/n1%n2, f=i/n1/n2;
      if(m==3 && (a==0||a==n1-1||e==0||e==n2-1||f==0||f==n3-1)) continue;
      if((m==4&&a!=1)||(m==5&&e!=1)||(m==6&&f!=1)) continue;
      v_le("nearest",r2(B,ind,p),r2(g->box[k],i,p),1e-9); } }
  if(m>=3) { int a=ind%n1, e=ind/n1%n2, f=ind/n1/n2;
    if(m==3) v_true("interior",a>0&&a<n1-1&&e>0&&e<n2-1&&f>0&&f<n3-1); else v_true("plane",m==4?a==1:m==5?e==1:f==1); }
  v_reach("end");
}
/* faces: c[0] 0 XYZ_on_face, 1 moveXYZ_off_face, 2 grid line index */
void h_face(int *c)
{
  tGrid *g=mk(1,3,4,5); tBox *B=g->box[0]; double p[3], q[3]; int face[6], nf, d, s, k;
  for(d=0;d<3;d++) { p[d]=in_d(nin++,B->bbox[2*d]-0.5,B->bbox[2*d+1]+0.5); q[d]=p[d]; }
  if(c[0]==0)
  { nf=XYZ_on_face(B,face,p[0],p[1],p[2]); for(k=0,d=0;d<6;d++) { double e=p[d/2]-B->bbox[d]; k+=face[d];
      if(face[d]) v_check("on",e,0,1e-8); else v_true("off",e!=0); } v_true("count",k==nf); }
  else if(c[0]==1)
  { for(d=0;d<3;d++) v_assume(p[d]>=B->bbox[2*d]&&p[d]<=B->bbox[2*d+1]);
    nf=moveXYZ_off_face(B,&q[0],&q[1],&q[2]);
    for(d=0;d<3;d++) { v_true("strictly_inside",q[d]>B->bbox[2*d]&&q[d]<B->bbox[2*d+1]); v_check("near",q[d],p[d],1e-5);
      if(nf==0) v_check("unmoved",q[d],p[d],0); } }
  else
  { int a, i,j,k; double *X=B->v[Ind("X")],*Y=B->v[Ind("Y")],*Z=B->v[Ind("Z")];
    if(c[1]==0) { i=find_i_Of_X(B,p[0]);
    if(i>=0) v_check("X",X[i],p[0],1e-8); else for(a=0;a<3;a++) v_true("noX",X[a]!=p[0]); }
    if(c[1]==1) { j=find_j_Of_Y(B,p[1]);
    if(j>=0) v_check("Y",Y[3*j],p[1],1e-8); else for(a=0;a<4;a++) v_true("noY",Y[3*a]!=p[1]); }
    if(c[1]==2) { k=find_k_Of_Z(B,p[2]);
    if(k>=0) v_check("Z",Z[12*k],p[2],1e-8); else for(a=0;a<5;a++) v_true("noZ",Z[12*a]!=p[2]); } }
  v_reach("end");
}
