/* boundary conditions between boxes */
#include "vgrid.h"
#include "boundary.h"
extern int npdbmax;
static int pick(int k, int lo, int hi) { int r=in_i(k,lo,hi), i; for(i=lo;i<hi;i++) if(r==i) return i; return hi; }
/* entries of the Jacobians are any numbers plus multiples of X,Y,Z */
static double GA[4][4], GB[4][4];
#define JF(a,b) static double J##a##b(void *x, int ind, double X, double Y, double Z) { return GA[a][b]+0.25*X-0.5*Y+0.125*(a+b)*Z; } static double K##a##b(void *x, int ind, double X, double Y, double Z) { return GB[a][b]-0.5*X+0.25*(a-b)*Y+0.125*Z; }
JF(1,1) JF(1,2) JF(1,3) JF(2,1) JF(2,2) JF(2,3) JF(3,1) JF(3,2) JF(3,3)
static double (*JT[4][4])(void*,int,double,double,double)={{0},{0,J11,J12,J13},{0,J21,J22,J23},{0,J31,J32,J33}};
static double (*KT[4][4])(void*,int,double,double,double)={{0},{0,K11,K12,K13},{0,K21,K22,K23},{0,K31,K32,K33}};
static double xofX(void *x, int ind, double X, double Y, double Z) { return X; }
static tGrid *g; static tBox *B; static int iF, ia, id[4], iX, ioX;
static void mk(int coords, int nonn)
{ int a, b, f, i; npdbmax=400; vg_start(2);
  vg_box(0,2,2,2,0,0,0,"0","1","0","2","0","3"); vg_box(1,3,2,4,0,0,0,"-1","1","0","2","1","3");
  sgrid_main(); sgrid_MemoryMan(); sgrid_Spectral(); sgrid_Coordinates();
  AddVar("a","","d"); AddVar("da","i","d"); AddVar("F","","d"); init_FFTW3_plans(0); g=make_grid(0);
  B=g->box[0]; iF=Ind("F"); ia=Ind("a"); for(a=1;a<=3;a++) id[a]=Ind("dax")+a-1; iX=Ind("X"); ioX=Ind("oX");
  enablevar(g,iF); enablevar(g,ia); enablevar(g,id[1]); enablevar(g,ioX); enablevar(g,ioX+1); enablevar(g,ioX+2);
  for(a=1;a<=3;a++) for(b=1;b<=3;b++) { B->x_of_X[a]=0; B->dX_dx[a][b]=0; B->dx_dX[a][b]=0; }
  if(coords) { for(a=1;a<=3;a++) for(b=1;b<=3;b++) { GA[a][b]=in_d(10*a+b,-2,2); B->x_of_X[a]=xofX; B->dX_dx[a][b]=JT[a][b]; } }
  if(coords==1) { static char *nm[4]={0,"dXdx","dYdx","dZdx"}; for(a=1;a<=3;a++) { int v=Ind(nm[a]); enablevar(g,v); for(b=1;b<=3;b++) for(i=0;i<8;i++) B->v[v+b-1][i]=in_d(100+30*a+10*b+i,-2,2); } }
  if(coords==3) for(a=1;a<=3;a++) for(b=1;b<=3;b++) { GB[a][b]=in_d(50+10*a+b,-2,2); B->dx_dX[a][b]=KT[a][b]; } }
/* gradient of the face coordinate at grid point i or at X,Y,Z */
static double grad(int coords, int dir, int j, int i)
{ static char *nm[4]={0,"dXdx","dYdx","dZdx"};
  if(coords==0) return dir==j; if(coords==1) return B->v[Ind(nm[dir])+j-1][i];
  return JT[dir][j](B,-1,B->v[iX][i],B->v[iX+1][i],B->v[iX+2][i]); }
static int FF; static void badface(void *q) { double n[4]; boxface_normal_at_ijk(B,FF,0,n); }
static void badover(void *q) { set_interbox_BCs_for_boxbfaces(B,iF,ia,id); }
/* normals and outward directions; c[0]: coords 0 Cartesian, 1 variables, 2 functions, 3 functions with dx/dX; */
void h_normal(int *c)
{ int f=pick(0,0,5), i=pick(1,0,7), dir=1+f/2, j, m; double n[4], G[4], G2=0, s, s2, q[3]; double sg= f%2 ? 1 : -1;
  mk(c[0],0);
  for(m=0;m<4;m++)
  { G2=0; n[0]=7; for(j=0;j<3;j++) q[j]=in_d(3+j,0,1);
    for(j=1;j<=3;j++) { G[j]= m<2 ? grad(c[0],dir,j,i) : c[0]==0 ? (j==dir) : JT[dir][j](B,-1,q[0],q[1],q[2]);
      if((m==1 || m==3) && c[0]==3) G[j]= m==1 ? KT[j][dir](B,-1,B->v[iX][i],B->v[iX+1][i],B->v[iX+2][i]) : KT[j][dir](B,-1,q[0],q[1],q[2]); G2+=G[j]*G[j]; }
    v_assume(G2>0.01);
    if(m==0) boxface_normal_at_ijk(B,f,i,n); else if(m==1) boxface_outwarddir_at_ijk(B,f,i,n);
    else if(m==2) boxface_normal_at_XYZ(B,f,q[0],q[1],q[2],n); else boxface_outwarddir_at_XYZ(B,f,q[0],q[1],q[2],n);
    s=sqrt(G2); for(j=1;j<=3;j++) v_check(m%2 ? "outward_direction" : "outward_normal", n[j]*s, sg*G[j], 1e-9);
    v_true("index_0_unused", n[0]==7); }
  FF=pick(9,0,1) ? 6 : -1; v_true("face_must_exist", v_call_exits(badface,0));
  v_reach("end"); }
/* ghost condition on a face: c[0]: 0 3d interpolation, 1..3 interpolation in plane, 4 same points; c[1]: normal derivatives, c[2]: 0 all faces, 1 one face, 2 one face with values, 3 one face with derivatives; c[3]: coords, c[4]: face, c[5]: other face 0 low, 1 high */
static double CF[4][24];
static double poly(int v, double X, double Y, double Z)
{ double r=0, px=1, py, pz; int i, j, k; for(i=0;i<3;i++,px*=X) for(py=1,j=0;j<2;j++,py*=Y) for(pz=1,k=0;k<4;k++,pz*=Z) r+=CF[v][i+3*(j+2*k)]*px*py*pz; return r; }
void h_bface(int *c)
{ int i, j, v, f=c[4], dir=1+f/2, nd=c[1], fi, fo, fj, of, on[8], nl=0, bnd, k=200, perm[8]; double o[4][8], f0[8]; tBface *bf, *ob; tBox *O; int sgn= f%2 ? 1 : -1;
  mk(c[3],0); O=g->box[1]; nd= c[2]==2 ? 0 : c[2]==3 ? 1 : nd;
  for(v=0;v<4;v++) { int vi= v ? id[v] : ia; for(j=0;j<24;j++) CF[v][j]= (v==0)==(nd==0) ? in_d(k++,-1,1) : 0;
    for(j=0;j<24;j++) O->v[vi][j]=poly(v,O->v[iX][j],O->v[iX+1][j],O->v[iX+2][j]);
    for(i=0;i<8;i++) o[v][i]=B->v[vi][i]=in_d(k++,-1,1); }
  for(i=0;i<8;i++) { f0[i]=B->v[iF][i]=in_d(500+i,-1,1); for(j=0;j<3;j++) B->v[ioX+j][i]= O->bbox[2*j]+(c[0]>=1 && c[0]<=3 && (i==1 || i==4 || i==6) && j==(c[0]+i)%3 ? -0.125+1.25*pick(40,0,1) : i==6 ? pick(50,0,1) : 0.1*(i+1+j))*(O->bbox[2*j+1]-O->bbox[2*j]); }
  of= c[0]>=1 && c[0]<=3 ? 2*(c[0]-1)+c[5] : 3;
  fi=add_empty_bface(B,f); fo=add_empty_bface(B,(f+1)%6); add_empty_bface(O,0); fj=add_empty_bface(O,of);
  bf=B->bface[fi]; ob=O->bface[fj];
  for(i=0;i<8;i++) { int at[3]={i%2,(i/2)%2,i/4}; on[i]= at[f/2]==f%2 && (i%3==1 || pick(30+i,0,1) || (nl==0 && i>=(f==1 ? 7 : f==3 ? 7 : f==5 ? 7 : f==0 ? 6 : f==2 ? 5 : 3))); add_point_to_bface_inbox(B,fo,i,(f+1)%6); if(on[i]) { perm[i]=(5*nl+7)%24; add_point_to_bface_inbox(B,fi,i,f); nl++; if(c[0]==4) { add_point_to_bface_inbox(O,fj,perm[i],of); } } }
  bf=B->bface[fi]; ob=O->bface[fj];
  bf->ob=1; bf->ofi=fj; bf->touch= c[0]!=0; bf->setnormalderiv=c[1]; bf->oXi=ioX; bf->oYi=ioX+1; bf->oZi=ioX+2; bf->sameX= c[0]==1 || c[0]==4; bf->sameY= c[0]==2 || c[0]==4; bf->sameZ= c[0]==3; bf->same_fpts= c[0]==4; B->bface[fo]->outerbound=1;
  if(c[0]==0 && nd) { v_true("overlapping_boxes_need_values", v_call_exits(badover,0)); v_reach("end"); return; }
  if(c[2]==0) set_interbox_BCs_for_boxbfaces(B,iF,ia,id); else set_interbox_BC_onface(B,iF,f,ia,id,c[2]-2);
  v_true("flag_of_face_kept", bf->setnormalderiv==c[1]);
  for(i=0;i<8;i++)
  { double C[3], e[4], G2=0, r=0; int skip=0;
    for(v=0;v<4;v++) v_true("fields_unchanged", B->v[v ? id[v] : ia][i]==o[v][i]);
    if(!on[i]) { v_true("other_points_unchanged", B->v[iF][i]==f0[i]); continue; }
    for(j=0;j<3;j++) { C[j]=B->v[ioX+j][i]; if(c[0]>=1 && c[0]<=3) { if(j==c[0]-1) C[j]=O->bbox[of]; else if(C[j]<O->bbox[2*j] || C[j]>O->bbox[2*j+1]) skip=1; } }
    if(skip) { v_true("point_beside_other_face_unchanged", B->v[iF][i]==f0[i]); continue; }
    for(v=0;v<4;v++) e[v]= c[0]==4 ? O->v[v ? id[v] : ia][perm[i]] : poly(v,C[0],C[1],C[2]);
    if(!nd) { v_check("difference_to_other_box", B->v[iF][i], o[0][i]-e[0], 1e-9); continue; }
    for(j=1;j<=3;j++) { double G=grad(c[3],dir,j,i); G2+=G*G; r+=G*(o[j][i]-e[j]); }
    v_assume(G2>0.01);
    v_check("difference_of_normal_derivatives", B->v[iF][i]*sqrt(G2), sgn*r, 1e-8); }
  v_reach("end"); }
