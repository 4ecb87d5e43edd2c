/* what the output functions write: the files are read back and compared with the grid */
#include "vgrid.h"
#include "output.h"
#include <sys/stat.h>
extern int npdbmax, nvdb; int sgrid_output(void); tBox *alloc_box(tGrid *g, int b, int n1, int n2, int n3);
void output0d_boxvar(tBox *b, char *n); void xgraph_out1_boxvar(tBox *b, char *n); void gnuplot_out2d_boxvar(tBox *b, char *n); void write3d_boxvar(tBox *b, char *n);
int find_ind_closest_to_X0(tBox *box, double X0); int find_ind_closest_to_Y0(tBox *box, double X0); int find_ind_closest_to_Z0(tBox *box, double X0); int SGRID_return_BYTE_ORDER_LITTLE(void);
static int little=1; int SGRID_return_BYTE_ORDER_LITTLE(void) { return little; }
/* weighted sums stand in for the integrals */
static int which_int; static double wsum(tBox *b, double *u, double k) { int i; double s=0; for(i=0;i<b->nnodes;i++) s+=(1+k*i)*u[i]; return s; }
double spec_3dIntegral(tBox *box, double *u, double *U) { (void)U; which_int|=1; return wsum(box,u,0.5); }
double spec_sphericalDF3dIntegral(tBox *box, double *u, double *U) { (void)U; which_int|=2; return wsum(box,u,0.25); }
static int pick(int k, int lo, int hi) { int r=in_i(k,lo,hi), i; for(i=lo;i<hi;i++) if(r==i) return i; return hi; }
static tGrid *g; static tBox *B; static int U, n1, n2, n3, N; static double c1[8], c2[8], c3[8];
#define ID(i,j,k) ((i)+n1*((j)+n2*(k)))
/* box 1 of two; the values of u are symbolic unless conc; coordinates X,Y,Z are different numbers on each axis */
static void mk(int m1, int m2, int m3, const char *co, int conc, int repl)
{ int i, j, k, vX, vx; n1=m1; n2=m2; n3=m3; N=n1*n2*n3; npdbmax=300; AddPar("storage_verbose","no","d"); AddPar("outdir","out","d"); AddPar("nboxes","2","d"); mkdir("out",0777); sgrid_output();
  vX=nvdb; AddVar("X","","d"); AddVar("Y","","d"); AddVar("Z","","d"); vx=nvdb; AddVar("x","","d"); AddVar("y","","d"); AddVar("z","","d"); AddVar("P","","d"); U=nvdb; AddVar("u","","d");
  AddPar("box0_Coordinates",(char *)co,"d"); AddPar("box1_Coordinates",(char *)co,"d"); if(repl) { Sets("outputReplaceXby_box1","x"); Sets("outputReplaceYby_box1","y"); Sets("outputReplaceZby_box1","P"); Sets("outputReplaceXby_box0","Z"); }
  g=alloc_grid(2,nvdb); alloc_box(g,0,1,1,1); B=alloc_box(g,1,n1,n2,n3); for(i=vX;i<=U;i++) enablevar(g,i);
  for(i=0;i<n1;i++) c1[i]=1+i*(1+0.125*i); for(j=0;j<n2;j++) c2[j]=-2+j*(1+0.125*j); for(k=0;k<n3;k++) c3[k]=10+k*(2+0.125*k);
  for(k=0;k<n3;k++) for(j=0;j<n2;j++) for(i=0;i<n1;i++) { int q=ID(i,j,k), e; B->v[vX][q]=c1[i]; B->v[vX+1][q]=c2[j]; B->v[vX+2][q]=c3[k]; for(e=0;e<4;e++) B->v[vx+e][q]=100*e+q+0.5; B->v[U][q]= conc ? 0.1*(q*q+1) : in_d(10+q,-5,5); }
  B->bbox[0]=1; B->bbox[1]=4; B->bbox[2]=-2; B->bbox[3]=2; B->bbox[4]=10; B->bbox[5]=11; g->dt=0.5; }
static double u_(int i, int j, int k) { return B->v[U][ID(i,j,k)]; }
static double co_(int d, int q, int repl) { static const char *a[6]={"X","Y","Z","x","y","P"}; return B->v[Ind((char*)a[d+3*repl])][q]; }
/* reads a number */
static double rd(FILE *f) { double x=1e300; v_true("number_there", fscanf(f,"%lf",&x)==1); return x; }
static void lit(FILE *f, const char *s) { int c; for(;*s;s++) { c=fgetc(f); v_true("layout", c==*s); if(c!=*s) return; } }
static void eof(FILE *f) { v_true("nothing_more", fgetc(f)==EOF); fclose(f); }
static FILE *op(const char *n) { FILE *f=fopen(n,"r"); v_true("file_written", f!=0); if(!f) v_assume(0); return f; }
/* c: n1,n2,n3, replaced coordinates */
void h_line(int *c)
{ FILE *f; int d, t, i, i0, j0, k0, m, n[3]; static const char *nm[3]={"out/u.X1","out/u.Y1","out/u.Z1"}; char s[60]; double T=1.5; mk(c[0],c[1],c[2],"Cartesian",0,c[3]); n[0]=n1; n[1]=n2; n[2]=n3;
  i0=pick(1,0,n1-1); j0=pick(2,0,n2-1); k0=pick(3,0,n3-1); sprintf(s,"%.16g",c1[i0]+0.0625); Sets("outputX0_box1",s); sprintf(s,"%.16g",c2[j0]+0.0625); Sets("outputY0_box1",s); sprintf(s,"%.16g",c3[k0]-0.0625); Sets("outputZ0_box1",s);
  for(t=0;t<2;t++) { g->time=T*t; xgraph_out1_boxvar(B,"u"); if(t==0) for(i=0;i<N;i++) B->v[U][i]+=1; } for(i=0;i<N;i++) B->v[U][i]-=1;
  for(d=0;d<3;d++) { f=op(nm[d]); for(t=0;t<2;t++) { sprintf(s,"\"time = %.16g\" , ",T*t); lit(f,s);
      if(d==0) sprintf(s,"j=%d, k=%d, Y=%.16g, Z=%.16g\n",j0,k0,c2[j0],c3[k0]); if(d==1) sprintf(s,"i=%d, k=%d, X=%.16g, Z=%.16g\n",i0,k0,c1[i0],c3[k0]); if(d==2) sprintf(s,"i=%d, j=%d, X=%.16g, Y=%.16g\n",i0,j0,c1[i0],c2[j0]); lit(f,s);
      for(m=0;m<n[d];m++) { int q= d==0 ? ID(m,j0,k0) : d==1 ? ID(i0,m,k0) : ID(i0,j0,m); v_check("coordinate",rd(f),co_(d,q,c[3]),0); lit(f," "); v_check("value",rd(f),B->v[U][q]+t,1e-9); lit(f,"\n"); } lit(f,"\n"); } eof(f); }
  v_reach("end"); }
void h_plane(int *c)
{ FILE *f; int d, t, i, j, k, i0, j0, k0; static const char *nm[3]={"out/u.YZ1","out/u.XZ1","out/u.XY1"}; char s[60]; double T=1.5; mk(c[0],c[1],c[2],"Cartesian",0,c[3]);
  i0=pick(1,0,n1-1); j0=pick(2,0,n2-1); k0=pick(3,0,n3-1); sprintf(s,"%.16g",c1[i0]+0.0625); Sets("outputX0_box1",s); sprintf(s,"%.16g",c2[j0]-0.0625); Sets("outputY0_box1",s); sprintf(s,"%.16g",c3[k0]+0.0625); Sets("outputZ0_box1",s);
  for(t=0;t<2;t++) { g->time=T*t; gnuplot_out2d_boxvar(B,"u"); if(t==0) for(i=0;i<N;i++) B->v[U][i]+=1; } for(i=0;i<N;i++) B->v[U][i]-=1;
  for(d=0;d<3;d++) { int a= d==0 ? 1 : 0, b= d==2 ? 1 : 2; f=op(nm[d]); for(t=0;t<2;t++) { sprintf(s,"# \"time = %.16g\", ",T*t); lit(f,s);
      if(d==0) sprintf(s,"i=%d, X=%.16g\n",i0,c1[i0]); if(d==1) sprintf(s,"j=%d, Y=%.16g\n",j0,c2[j0]); if(d==2) sprintf(s,"k=%d, Z=%.16g\n",k0,c3[k0]); lit(f,s);
      for(k= d==2 ? k0 : 0; k<(d==2 ? k0+1 : n3);k++) { for(j= d==1 ? j0 : 0; j<(d==1 ? j0+1 : n2);j++) { for(i= d==0 ? i0 : 0; i<(d==0 ? i0+1 : n1);i++)
        { int q=ID(i,j,k); v_check("coordinate",rd(f),co_(a,q,c[3]),0); lit(f," "); v_check("coordinate",rd(f),co_(b,q,c[3]),0); lit(f," "); v_check("value",rd(f),u_(i,j,k)+t,1e-9); lit(f,"\n"); } if(d==2) lit(f,"\n"); } if(d!=2) lit(f,"\n"); } lit(f,"\n"); } eof(f); }
  v_reach("end"); }
static int dbl, text; static double num(FILE *f)
{ double x=1e300; float y; unsigned char b[8], r[8]; int i, m= dbl ? 8 : 4; if(text) { x=rd(f); return x; }
  if(!little) { if(dbl) { v_true("bytes_there", fread(&x,8,1,f)==1); return x; } v_true("bytes_there", fread(&y,4,1,f)==1); return y; }
  v_true("bytes_there", (int)fread(b,1,m,f)==m); for(i=0;i<m;i++) r[i]=b[m-1-i]; if(dbl) { memcpy(&x,r,8); return x; } memcpy(&y,r,4); return y; }
static void same(FILE *f, const char *n, double e) { v_check(n,num(f),e, dbl ? 1e-9 : 4e-6*fabs(e)+1e-6*(text && !v_symbolic() ? 1:1)); if(text) lit(f,"\n"); }
/* c: n1,n2,n3, dataset 0 rectilinear 1 fakepoints 2 fakepoints arranged 3 points, format 0 text double 1 text float 2 binary double 3 binary float 4 nothing said, 5 = 2 on a big endian machine, 6 = 3 on it */
void h_vtk(int *c)
{ static const char *fm[7]={"text double","text float","binary double","binary float","","binary double","binary float"}, *ds[4]={"vtk ","vtk fakepoints ","vtk fakepoints arrange_as_1d ","vtk addpoints "}; char s[200]; FILE *f; int i, j, k, e, q, T; const char *ty;
  text= c[4]<2; dbl= c[4]==0 || c[4]==2 || c[4]==5; little= c[4]<5; ty= dbl ? "double" : "float"; mk(c[0],c[1],c[2],"Cartesian",c[4]!=0 && c[4]!=5,0); T=pick(1,0,2); g->iteration=2*T; g->time=T; Sets("3doutiter","2"); sprintf(s,"%s%s",ds[c[3]],fm[c[4]]); Sets("3dformat",s);
  write3d_boxvar(B,"u"); sprintf(s,"out/u.%s1_vtk/u.%s1_%08d.vtk",c[3]==3 ? "xyz" : "XYZ",c[3]==3 ? "xyz" : "XYZ",T); f=op(s);
  lit(f,"# vtk DataFile Version 2.0\n"); sprintf(s,"variable u, box 1, time %d%s\n",T,c[3]==1 || c[3]==2 ? ", Note: uniform grid spacings below are fake" : ""); lit(f,s); lit(f,text ? "ASCII\n\n" : "BINARY\n");
  if(c[3]==1 || c[3]==2) { lit(f,"DATASET STRUCTURED_POINTS\nDIMENSIONS "); if(c[3]==1) sprintf(s,"%d %d %d\n",n1,n2,n3); else sprintf(s,"%d 1 1\n",N); lit(f,s); 
    if(c[3]==1) sprintf(s,"ORIGIN  %16.9e %16.9e %16.9e\nSPACING %16.9e %16.9e %16.9e\n\n",1.,-2.,10.,3./n1,4./n2,1./n3); else sprintf(s,"ORIGIN  %16.9e %16.9e %16.9e\nSPACING %16.9e %16.9e %16.9e\n\n",0.,0.,0.,1.,1.,1.); lit(f,s); }
  if(c[3]==0) { lit(f,"DATASET RECTILINEAR_GRID\n"); sprintf(s,"DIMENSIONS %d %d %d\n",n1,n2,n3); lit(f,s); sprintf(s,"X_COORDINATES %d %s\n",n1,ty); lit(f,s); for(i=0;i<n1;i++) same(f,"X",c1[i]); sprintf(s,"\n\nY_COORDINATES %d %s\n",n2,ty); lit(f,s); for(j=0;j<n2;j++) same(f,"Y",c2[j]); sprintf(s,"\n\nZ_COORDINATES %d %s\n",n3,ty); lit(f,s); for(k=0;k<n3;k++) same(f,"Z",c3[k]); lit(f,"\n\n"); }
  if(c[3]==3) { lit(f,"DATASET STRUCTURED_GRID\n"); sprintf(s,"DIMENSIONS %d %d %d\nPOINTS %d %s\n",n1,n2,n3,N,ty); lit(f,s); for(q=0;q<N;q++) for(e=0;e<3;e++) { v_check("point",num(f),100*e+q+0.5,1e-4); if(text) lit(f,e<2 ? " " : "\n"); } lit(f,"\n\n"); }
  sprintf(s,"POINT_DATA %d\nSCALARS %s %s\nLOOKUP_TABLE default\n",N,c[3]==3 ? "u" : "scalars",ty); lit(f,s);
  for(k=0;k<n3;k++) for(j=0;j<n2;j++) for(i=0;i<n1;i++) same(f,"value",u_(i,j,k)); eof(f); v_reach("end"); }
/* sgrid's own dump */
void h_dump(int *c)
{ FILE *f; int t, q; float y; char s[200]; mk(c[0],c[1],c[2],"Cartesian",1,0); Sets("3doutiter","1"); for(t=0;t<2;t++) { g->time=t; g->iteration=t; write3d_boxvar(B,"u"); for(q=0;q<N;q++) B->v[U][q]+=1; } f=op("out/u.XYZ1");
  for(t=0;t<2;t++) { sprintf(s,"# \"time = %d\" , box1: n1=%d n2=%d n3=%d , N=%d numbers , type=float\n",t,n1,n2,n3,N); lit(f,s); for(q=0;q<N;q++) { v_true("bytes_there", fread(&y,4,1,f)==1); v_check("value",y,0.1*(q*q+1)+t,1e-5); } lit(f,"\n\n"); } eof(f); v_reach("end"); }
/* norms: c: points, 0 Cartesian 1 SphericalDF 2 SphericalDF with Jacobian one 3 sums 4 other coordinates */
void h_norm(int *c)
{ static const char *nm[6]={"max","min","rms","meanAbs","mean","VolInt"}; double V=0, r2=0, a=0, I=0, mx, mn, k= c[1]==1 ? 0.25 : 0.5, x[6], t; int i, e; char s[80]; FILE *f;
  mk(c[0],1,1,c[1]==1 || c[1]==2 ? "SphericalDF" : c[1]==4 ? "Spherical" : "Cartesian",0,0); if(c[1]==2) Sets("0doutput_VolumeIntegralJacobian","one"); if(c[1]==3) Sets("0doutput_normtype","L2norm"); g->time=2.5; which_int=0;
  output0d_boxvar(B,"u"); v_true("integral_used", which_int==(c[1]==3 ? 0 : c[1]==1 ? 2 : 1)); mx=mn=u_(0,0,0);
  for(e=0;e<6;e++) { sprintf(s,"out/u_%s.1",nm[e]); f=op(s); t=rd(f); v_check("time",t,2.5,0); x[e]=rd(f); lit(f,"\n"); eof(f); }
  for(i=0;i<N;i++) { double w= c[1]==3 ? 1. : 1+k*i, u=u_(i,0,0); V+=w; r2+=w*u*u; a+=w*(u<0 ? -u : u); I+=w*u; v_le("max",u,x[0],1e-9); v_le("min",x[1],u,1e-9); }
  { int hm=0, hn=0; for(i=0;i<N;i++) { hm|= (x[0]-u_(i,0,0)<1e-9) & (x[0]-u_(i,0,0)>-1e-9); hn|= (x[1]-u_(i,0,0)<1e-9) & (x[1]-u_(i,0,0)>-1e-9); } { v_true("max_attained",hm); v_true("min_attained",hn); } } (void)mx; (void)mn;
  if(c[1]==3) { v_le("mean_positive",0,x[4],1e-9); v_check("mean",x[4]*x[4]*N,r2,1e-7); v_check("meanAbs",x[3]*x[3]*N,r2,1e-7); v_check("VolInt",x[5]*x[5]*N,r2,1e-7); }
  else { v_le("rms_positive",0,x[2],1e-9); v_check("rms",x[2]*x[2]*V,r2,1e-7); v_check("meanAbs",x[3]*V,a,1e-7); v_check("mean",x[4]*V,I,1e-7); v_check("VolInt",x[5],I,1e-7); }
  v_reach("end"); }
/* index nearest to a value; c: axis, points */
void h_near(int *c)
{ int i, r, d=c[0]; double X0=in_d(1,-10,10), x; static double y[8]; double *p; mk(d==0 ? c[1] : 2,d==1 ? c[1] : 3,d==2 ? c[1] : 2,"Cartesian",1,0); y[0]=in_d(2,-5,5); for(i=1;i<c[1];i++) y[i]=y[i-1]+in_d(2+i,0.125,3);
  p=B->v[Ind(d==0 ? "X" : d==1 ? "Y" : "Z")]; for(i=0;i<N;i++) p[i]=1e9; for(i=0;i<c[1];i++) p[d==0 ? ID(i,0,0) : d==1 ? ID(0,i,0) : ID(0,0,i)]=y[i];
  r= d==0 ? find_ind_closest_to_X0(B,X0) : d==1 ? find_ind_closest_to_Y0(B,X0) : find_ind_closest_to_Z0(B,X0); v_true("index_in_range", r>=0 && r<c[1]); x=0; for(i=0;i<c[1];i++) if(i==r) x=y[i];
  for(i=0;i<c[1];i++) v_le("nearest",fabs(x-X0),fabs(y[i]-X0),1e-12); v_reach("end"); }
