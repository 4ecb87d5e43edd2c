/* sparse matrices, set up of linear systems and their solution on the grid */
#include "vgrid.h"
#include "LinAlg.h"
#include "GridIterators.h"
#ifdef UMFPACK
#include "umfpack.h"
#endif
#ifdef SUITESPARSEQR
#include "SuiteSparseQR_C.h"
#endif
extern int npdbmax, nvdb;
tBox *alloc_box(tGrid *g, int b, int n1, int n2, int n3);
int sgrid_LinAlg(void); int sgrid_GridIterators(void);
static int pick(int k, int lo, int hi) { int r=in_i(k,lo,hi), i; for(i=lo;i<hi;i++) if(r==i) return i; return hi; }
/* ---- a linear operator on a grid of 3 boxes ---- */
#define MB 3
#define MP 12
static tGrid *g; static int nb, nn[MB], nv, U, R, C1, C2; static double *MM; static int calls, tot, fdcalls;
static int lidx(int j, int b, int i) { int k=0, a; for(a=0;a<b;a++) k+=nn[a]; return j*tot+k+i; }
static void lop(tVarList *F, tVarList *x, tVarList *c1, tVarList *c2)
{ tGrid *q=x->grid; int j, b, i, jj, bb, ii, N=nv*tot; double s; calls++; fdcalls+= q->box[nb-1]->x_of_X[1]!=NULL;
  v_true("operator_gets_lists", F->grid==q && c1->grid==q && c2->grid==q && F->n==nv && c1->n==1 && c2->n==1);
  for(j=0;j<nv;j++) forallboxes(q,b) for(i=0;i<nn[b];i++)
  { s=0; for(jj=0;jj<nv;jj++) forallboxes(q,bb) for(ii=0;ii<nn[bb];ii++) s+=MM[lidx(j,b,i)*N+lidx(jj,bb,ii)]*q->box[bb]->v[x->index[jj]][ii];
    q->box[b]->v[F->index[j]][i]=s+(c1->n ? q->box[b]->v[c1->index[0]][i] : 0)*q->box[b]->v[x->index[0]][i]; } }
static tVarList *vx, *vb, *vr, *v1, *v2;
static tVarList *mkvl(int v, int n) { tVarList *l=vlalloc(g); int i; for(i=0;i<n;i++) vlpushone(l,v+i); return l; }
/* c: nv, inactive box or -1; boxes 2x1x1, 1x3x1, 2x1x2 */
static void mk(int nvars, int nbox, int inact, double lim)
{ static int s[MB][3]={{2,1,1},{1,3,1},{2,1,2}}; int b, i, j, k=1000, N; nv=nvars; nb=nbox; npdbmax=200;
  AddPar("storage_verbose","no","d"); AddPar("outdir","out","d"); AddPar("physics","x","d"); for(b=0;b<nb;b++) { char t[40]; sprintf(t,"box%d_Coordinates",b); AddPar(t,"Cartesian","d"); } sgrid_LinAlg(); sgrid_GridIterators(); Sets("GridIterators_verbose","no");
  { char t[40], w[40]; sprintf(t,"%d",nb); AddPar("nboxes",t,"d"); AddPar("dt","0","d"); for(b=0;b<nb;b++) for(i=0;i<3;i++) { sprintf(t,"box%d_n%d",b,i+1); sprintf(w,"%d",s[b][i]); AddPar(t,w,"d"); } }
  U=nvdb; AddVar("u0","","d"); AddVar("u1","","d"); R=nvdb; AddVar("r0","","d"); AddVar("r1","","d"); C1=nvdb; AddVar("c1","","d"); C2=nvdb; AddVar("c2","","d"); AddVar("b0","","d"); AddVar("b1","","d");
  g=alloc_grid(nb,nvdb); tot=0; for(b=0;b<nb;b++) { alloc_box(g,b,s[b][0],s[b][1],s[b][2]); nn[b]=s[b][0]*s[b][1]*s[b][2]; tot+=nn[b]; }
  for(i=0;i<nvdb;i++) enablevar(g,i);
  if(inact>=0) { g->box[inact]->inactive=1; g->ninactive=1; }
  N=nv*tot; MM=calloc(N*N,sizeof(double));
  for(i=0;i<N*N;i++) { MM[i]= lim>0 ? (i%2 ? in_d(k+i,0.3,lim) : in_d(k+i,-lim,-0.3)) : 0; }
  for(b=0;b<nb;b++) for(i=0;i<nn[b];i++) for(j=0;j<nvdb;j++) g->box[b]->v[j][i]= j==C1 && lim>0 ? in_d(100+12*j+4*b+i,-0.2,0.2) : in_d(100+12*j+4*b+i,-2,2);
  vx=mkvl(U,nv); vr=mkvl(R,nv); v1=mkvl(C1,1); v2=mkvl(C2,1); vb=mkvl(Ind("b0"),nv); }
static int nl(void) { int b, n=0; forallboxes(g,b) n+=nv*nn[b]; return n; }
