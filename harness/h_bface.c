/* connections between the faces of Cartesian boxes with symbolic extents */
#include "vgrid.h"
#include "Coordinates.h"
static tGrid *g; static int nin=1; static double lo[3][3], hi[3][3]; static int nn[3][3], NB, sw[3];
/* box coordinates of a box with sw=1: X and Y exchange their roles */
static double mx(void *b, int i, double X, double Y, double Z) { return Y; }
static double my(void *b, int i, double X, double Y, double Z) { return X; }
static double mz(void *b, int i, double X, double Y, double Z) { return Z; }
static double m0(void *b, int i, double X, double Y, double Z) { return 0; }
static double m1(void *b, int i, double X, double Y, double Z) { return 1; }
static int mi(tBox *b, int i, double x, double y, double z, double *X, double *Y, double *Z) { *X=y; *Y=x; *Z=z; return 0; }
static int pm(int b, int d) { return sw[b]&&d<2 ? 1-d : d; }
static void mk(const char *opt)
{
  int b,i,d;
  vg_start(NB);
  for(b=0;b<NB;b++) vg_box(b,nn[b][0],nn[b][1],nn[b][2],0,0,0,"0","1","0","1","0","1");
  g=vg_grid(0); init_CoordTransform_And_Derivs(g);
  Sets("Coordinates_bface_options",(char *)opt);
  enablevar(g,Ind("X")); enablevar(g,Ind("Y")); enablevar(g,Ind("Z")); enablevar(g,Ind("x")); enablevar(g,Ind("y")); enablevar(g,Ind("z"));
  for(b=0;b<NB;b++) { tBox *B=g->box[b];
    for(d=0;d<3;d++) { B->bbox[2*d]=lo[b][pm(b,d)]; B->bbox[2*d+1]=hi[b][pm(b,d)]; B->periodic[d+1]=0; }
    for(i=0;i<B->nnodes;i++) { int id[3]; id[0]=i%nn[b][0]; id[1]=i/nn[b][0]%nn[b][1]; id[2]=i/nn[b][0]/nn[b][1];
      for(d=0;d<3;d++) B->v[Ind("x")+pm(b,d)][i]=B->v[Ind("X")+d][i]= id[d]==nn[b][d]-1 ? hi[b][pm(b,d)] : lo[b][pm(b,d)]+(hi[b][pm(b,d)]-lo[b][pm(b,d)])*id[d]/(nn[b][d]-1); }
    if(sw[b]) { B->x_of_X[1]=mx; B->x_of_X[2]=my; B->x_of_X[3]=mz; B->XYZ_Of_xyz=mi;
      for(d=1;d<4;d++) for(i=1;i<4;i++) B->dx_dX[d][i]=m0; B->dx_dX[1][2]=B->dx_dX[2][1]=B->dx_dX[3][3]=m1; } }
}
#define DL 1e-4
/* the first other box that contains the point just outside face f of box b */
static int expect(int b, int f, const int *id)
{
  double q[3]; int d, o, jd[3], D=f/2, s=2*(f%2)-1;
  for(d=0;d<3;d++) { jd[d]=id[d]; if(d!=D) { if(jd[d]==0) jd[d]++; else if(jd[d]==nn[b][d]-1) jd[d]--; } }
  { int ijk=jd[0]+nn[b][0]*(jd[1]+nn[b][1]*jd[2]); for(d=0;d<3;d++) q[d]=g->box[b]->v[Ind("x")+d][ijk]; }
  q[pm(b,D)]+=s*DL;
  for(o=0;o<NB;o++) if(o!=b && ((q[0]>=lo[o][0])&(q[0]<=hi[o][0])&(q[1]>=lo[o][1])&(q[1]<=hi[o][1])&(q[2]>=lo[o][2])&(q[2]<=hi[o][2]))) return o;
  return -1;
}
static int inl(tPointList *P, int b, int ijk) { int k,n=0; if(!P) return 0; for(k=0;k<P->npoints[b];k++) if(P->point[b][k]==ijk) n++; return n; }
/* exact: every paired face has the same points on both sides; pairs: number of face pairs expected (-1: not checked) */
static void check(int pairs, int aligned, int overlap)
{
  int b,f,i,fi,d,np=0;
  for(b=0;b<NB;b++)
  {
    tBox *B=g->box[b];
    for(fi=0;fi<B->nbfaces;fi++)
    { tBface *F=B->bface[fi]; 
      v_true("box_of_face",F->b==b && F->fi==fi && F->f>=0 && F->f<6 && F->fpts!=NULL);
      v_true("outer_iff_alone",(F->ob==-1)==(F->outerbound==1)); v_true("not_inner",F->innerbound==0); v_true("ob_range",F->ob>=-1&&F->ob<NB&&F->ob!=b);
      if(F->ob<0) { v_true("alone_flags",F->touch==0&&F->same_fpts==0); continue; }
      if(F->ofi>=0)
      { tBface *G; v_true("partner",F->ofi<g->box[F->ob]->nbfaces); G=g->box[F->ob]->bface[F->ofi];
        v_true("partner_back",G->ob==b&&G->ofi==fi&&2*pm(F->ob,G->f/2)+G->f%2==2*pm(b,F->f/2)+1-F->f%2); np++;
        v_true("touch_both",F->touch==G->touch); v_true("same_both",F->same_fpts==G->same_fpts);
        v_true("touches",F->touch==!overlap);
        if(F->touch) v_true("one_derivative",F->setnormalderiv+G->setnormalderiv==1);
        v_true("aligned",F->same_fpts==aligned);
        if(F->same_fpts)
        { v_true("same_number",F->fpts->npoints[b]==G->fpts->npoints[F->ob]);
          for(i=0;i<F->fpts->npoints[b];i++) for(d=0;d<3;d++)
            v_check("same_place",B->v[Ind("x")+d][F->fpts->point[b][i]],g->box[F->ob]->v[Ind("x")+d][G->fpts->point[F->ob][i]],1e-9); }
      }
      else v_true("paired",0);
      if(!F->same_fpts)
      { v_true("has_ocoords",F->oXi==Ind("oX")&&F->oYi==Ind("oY")&&F->oZi==Ind("oZ"));
        for(i=0;i<F->fpts->npoints[b];i++) for(d=0;d<3;d++)
          v_check("coords_in_other",B->v[Ind("oX")+d][F->fpts->point[b][i]],B->v[Ind("x")+pm(F->ob,d)][F->fpts->point[b][i]],1e-8); }
    }
    for(f=0;f<6;f++) for(i=0;i<B->nnodes;i++)
    { int id[3], m=0, w=-2, e;
      id[0]=i%nn[b][0]; id[1]=i/nn[b][0]%nn[b][1]; id[2]=i/nn[b][0]/nn[b][1];
      for(fi=0;fi<B->nbfaces;fi++) if(B->bface[fi]->f==f) { int k=inl(B->bface[fi]->fpts,b,i); m+=k; if(k) w=B->bface[fi]->ob; }
      if(id[f/2]!=(f%2?nn[b][f/2]-1:0) || B->periodic[f/2+1]) { v_true("not_on_face",m==0); continue; }
      v_true("once",m==1); e=expect(b,f,id); v_true("right_box",w==e); }
    for(fi=0;fi<B->nbfaces;fi++) for(d=0;d<NB;d++) if(d!=b) v_true("own_points",B->bface[fi]->fpts->npoints[d]==0);
  }
  if(pairs>=0) v_true("number_of_pairs",np==2*pairs);
}
static const char *opts[]={"setnormalderiv_order3","setnormalderiv_order1","setnormalderiv_order2","none","setnormalderiv_order4"};
static void cross(int d, double l1, double h1, double l2, double h2, int b) { lo[b][(d+1)%3]=l1; hi[b][(d+1)%3]=h1; lo[b][(d+2)%3]=l2; hi[b][(d+2)%3]=h2; }
static void size(int d, int b, int n, int n1, int n2) { nn[b][d]=n; nn[b][(d+1)%3]=n1; nn[b][(d+2)%3]=n2; }
/* c[0] arrangement, c[1] direction, c[2] 1: the order of the boxes is reversed, c[3] option (1: set twice), c[4] 0: Coordinates_set_bfaces, 1: same-points version, c[5] boxes (bits) whose first two coordinates are exchanged */
void h_bface(int *c)
{
  int d=c[1], a=c[2], m=1-c[2], al=1, ov=0, pr=1, k; double w, h=1, s;
  w= c[0]==2||c[0]==3||c[0]==4||c[0]==6 ? 1.5 : in_d(nin++,1,1.25);
  NB=2; lo[a][d]=0; hi[a][d]=w; lo[m][d]=w; hi[m][d]=w+1.5; cross(d,0,h,0,1.25,a); cross(d,0,h,0,1.25,m); size(d,a,3,3,3); size(d,m,3,3,3);
  if(c[0]==0) { size(d,a,3,3,4); size(d,m,4,3,4); }
  if(c[0]==1) { al=0; size(d,m,3,4,3); }
  if(c[0]==2) { s=in_d(nin++,0.01,0.2); lo[m][d]+=s; hi[m][d]+=s; pr=0; }
  if(c[0]==3) { al=0; ov=1; s=in_d(nin++,0.01,0.9); lo[m][d]-=s; }
  if(c[0]==4) { al=0; s=in_d(nin++,0.6,0.7); size(d,m,3,5,5); cross(d,-s,1.7,-0.9,2.3,m); }
  if(c[0]==5) { NB=3; lo[2][d]=w+1.5; hi[2][d]=w+4; cross(d,0,h,0,1.25,2); size(d,2,4,3,3); pr=2; }
  if(c[0]==6) { al=0; ov=1; s=in_d(nin++,0.1,0.3); lo[m][d]-=0.25; cross(d,s,h+s,0.1,1.3,m); }
  if(c[5]) { for(k=0;k<NB;k++) if(c[5]>>k&1) { int t=nn[k][0]; nn[k][0]=nn[k][1]; nn[k][1]=t; sw[k]=1; } }
  mk(opts[c[3]]);
  if(c[0]==7) for(k=0;k<2;k++) g->box[k]->periodic[pm(k,(d+1)%3)+1]=1;
  if(c[4]==0) { Coordinates_set_bfaces(g); if(c[3]==1) Coordinates_set_bfaces(g); }
  else { k=set_touching_bfaces_of_boxes_with_same_facepoints(g,0,NB); v_true("interfaces",k==pr); set_all_bfaces_with_ob_minus1_to_outerbound(g,0,NB); }
  check(pr,al,ov);
  v_reach("end");
}
