/* iterative linear solvers on the grid */
#include "lin.h"
/* scalar products: any values (c[6]==0) or the right ones; their own check is in h_lin.c */
static int dots, dmode;
double GridDotProduct(tVarList *u, tVarList *v)
{ int j, b, i; double s=0; if(dmode) { for(j=0;j<u->n;j++) forallboxes(g,b) for(i=0;i<nn[b];i++) s+=g->box[b]->v[u->index[j]][i]*g->box[b]->v[v->index[j]][i]; return s; }
  dots++; return in_d(900+dots,-2,2); }
typedef int (*tLS)(tVarList *, tVarList *, tVarList *, tVarList *, tVarList *, int, double, double *, void (*)(tVarList *, tVarList *, tVarList *, tVarList *), void (*)(tVarList *, tVarList *, tVarList *, tVarList *));
static double pd[2]; static int pcalls;
static void diag(tVarList *x, tVarList *b, tVarList *c1, tVarList *c2) { int j, a, i; pcalls++; v_true("preconditioner_gets_lists", x->n==nv && b->n==nv && c1==v1 && c2==v2); for(j=0;j<nv;j++) forallboxes(g,a) for(i=0;i<nn[a];i++) g->box[a]->v[x->index[j]][i]=pd[i%2]*g->box[a]->v[b->index[j]][i]; }
static void setb(void) { int b, j, i; for(b=0;b<nb;b++) for(j=0;j<nv;j++) for(i=0;i<nn[b];i++) g->box[b]->v[Ind("b0")+j][i]=in_d(400+16*j+4*b+i,-1,1); }
static void honest(double res, double tol, int ret, int itmax, double *q2)
{ int i, j, b; double s=0; lop(vr,vx,v1,v2);
  if(q2) { for(j=0;j<nv;j++) forallboxes(g,b) for(i=0;i<nn[b];i++) { double e=g->box[b]->v[Ind("b0")+j][i]-g->box[b]->v[R+j][i]; s+=e*e; } *q2=s; }
  v_true("small_residual_if_solved", !(ret>=0 && ret<=itmax) || res<=tol); v_true("not_solved_if_residual_large", !(res<=tol) || (ret>=0 && ret<=itmax));
  for(b=0;b<nb;b++) for(j=0;j<nv;j++) for(i=0;i<nn[b];i++) v_true("right_hand_side_unchanged", g->box[b]->v[Ind("b0")+j][i]==in_d(400+16*j+4*b+i,-1,1)); }
/* norms: any values; the vectors they were taken of are noted */
#define NS 24
static double snap[NS][2][MB][4]; static int norms;
double GridL2Norm(tVarList *u)
{ int j, b, i, m=0; double s=0; if(dmode) { for(j=0;j<u->n;j++) forallboxes(g,b) for(i=0;i<nn[b];i++) { double e=g->box[b]->v[u->index[j]][i]; s+=e*e; m++; } return sqrt(s/m); }
  v_true("norm_of_all_variables", u->n==nv && norms<NS); for(j=0;j<u->n;j++) forallboxes(g,b) for(i=0;i<nn[b];i++) snap[norms][j][b][i]=g->box[b]->v[u->index[j]][i];
  return in_d(950+norms++,0,2); }
/* c[0]: itmax, c[1]: variables, c[2]: boxes, c[3]: inactive, c[4]: preconditioner 0 none 1 diagonal, c[5]: concrete elements */
void h_bicg(int *c)
{ static char *T[7]={"p","ph","rt","s","sh","t","v"}; int i, j, b, ret; double tol=in_d(1,0.01,1), res=-1; char t[60]; mk(c[1],c[2],c[3],2); setb(); Sets("LinAlg_setABStozero_below","-1"); pd[0]=in_d(2,0.5,2); pd[1]=in_d(3,0.5,2);
  if(c[5]) for(i=0;i<nv*tot*nv*tot;i++) if(i%c[5]) MM[i]=0.25*((i*7)%11)-1;
  ret=bicgstab(vx,vb,vr,v1,v2,c[0],tol,&res,lop,c[4] ? diag : Preconditioner_I);
  { int k, w=-1; honest(res,tol,ret,c[0],0); for(k=0;k<norms;k++) if(res==in_d(950+k,0,2)) w=k; v_true("residual_is_a_norm", w>=0);
    if(w>=0) for(j=0;j<nv;j++) forallboxes(g,b) for(i=0;i<nn[b];i++) v_check("residual_reported", snap[w][j][b][i], g->box[b]->v[Ind("b0")+j][i]-g->box[b]->v[R+j][i], 1e-9); }
  v_true("not_more_steps", ret<=c[0]+1 && pcalls<=2*c[0]);
  for(i=0;i<7;i++) for(j=0;j<nv;j++) { sprintf(t,"u%d_GridIterators_%s",j,T[i]); for(b=0;b<nb;b++) v_true("temporary_variables_freed", g->box[b]->v[Ind(t)]==NULL); }
  if(ret==0) v_reach("solved_before"); if(ret==1) v_reach("solved"); if(ret<0 || ret>c[0]) v_reach("not_solved");
  v_reach("end"); }
int matrix_SOR(tSparseVector **A, int n, double *x, double *b, double omega, int itmax, double tol, double *normres); void SOR_step(tSparseVector **A, int n, double *x, double *b, double omega); int SOR_Iterator(tVarList *, tVarList *, tVarList *, tVarList *, tVarList *, int, double, double *, void (*)(tVarList *, tVarList *, tVarList *, tVarList *), void (*)(tVarList *, tVarList *, tVarList *, tVarList *));
/* c[0]: itmax, c[1]: variables, c[2]: boxes, c[3]: inactive, c[4]: ordering */
void h_sor(int *c)
{ int i, j, b, n, ret; double tol=in_d(1,0.01,1), res=-1, s; static double om[3]={1.5,1,0.25}; static char *os[3]={"1.5","1","0.25"}; mk(c[1],c[2],c[3],2); n=nl(); setb(); Sets("LinAlg_setABStozero_below","-1"); Sets("GridIterators_SOR_omega",os[c[5]]); Sets("GridIterators_SOR_matrix", c[4] ? "SetMatrixLines_forSortedVars_slowly" : "SetMatrixLines_slowly");
  for(b=0;b<nb;b++) for(i=0;i<nn[b];i++) g->box[b]->v[C1][i]=0;
  for(i=0;i<nv*tot;i++) MM[i*nv*tot+i]=1+0.25*i;
  if(c[1]*c[2]>1) for(i=0;i<nv*tot*nv*tot;i++) if(i%(nv*tot+1) && i!=1 && i!=nv*tot) MM[i]=0.125*((i*7)%5)-0.25;
  for(j=0;j<nv;j++) for(b=0;b<nb;b++) for(i=0;i<nn[b];i++) if((i+b+j)%3) g->box[b]->v[U+j][i]=0.5*i-0.25;
  { double x[12], y[12], ff[12], q[12]; int k=0, l, a, ii, bb, jj, ix[12]; 
    if(c[4]) { forallboxes(g,b) for(j=0;j<nv;j++) for(i=0;i<nn[b];i++) { q[k]=g->box[b]->v[U+j][i]; ff[k]=g->box[b]->v[Ind("b0")+j][i]; ix[k++]=lidx(j,b,i); } }
    else { forallboxes(g,b) for(i=0;i<nn[b];i++) for(j=0;j<nv;j++) { q[k]=g->box[b]->v[U+j][i]; ff[k]=g->box[b]->v[Ind("b0")+j][i]; ix[k++]=lidx(j,b,i); } }
    for(l=0;l<n;l++) x[l]=0; (void)q; /* the matrix set up resets the initial guess */
    ret=SOR_Iterator(vx,vb,vr,v1,v2,c[0],tol,&res,lop,Preconditioner_I);
    for(a=0;a<(ret<=c[0] ? ret : c[0]);a++) for(l=0;l<n;l++) { double sg=0; for(ii=0;ii<n;ii++) if(ii!=l) sg+=MM[ix[l]*nv*tot+ix[ii]]*x[ii]; x[l]=(1-om[c[5]])*x[l]+om[c[5]]*(ff[l]-sg)/MM[ix[l]*nv*tot+ix[l]]; }
    k=0; if(c[4]) { forallboxes(g,b) for(j=0;j<nv;j++) for(i=0;i<nn[b];i++) v_check("relaxation_steps", g->box[b]->v[U+j][i], x[k++], 1e-9); }
    else { forallboxes(g,b) for(i=0;i<nn[b];i++) for(j=0;j<nv;j++) v_check("relaxation_steps", g->box[b]->v[U+j][i], x[k++], 1e-9); } (void)y; (void)bb; (void)jj; }
  honest(res,tol,ret,c[0],&s); v_check("residual_reported", res*res, s, 1e-9); if(c[1]==1 && c[2]==1) v_le("residual_positive",0,res,0);
  if(ret==0) v_reach("solved_before"); if(ret==1) v_reach("solved"); if(ret>c[0]) v_reach("not_solved");
  v_reach("end"); }
/* as many steps as there are different eigenvalues solve the system; c[0]: 0 multiple of the identity, 1 two eigenvalues, 2 preconditioned to the identity */
void h_conv(int *c)
{ int i, j, b, ret, N; double res=-1, t=in_d(5,0.5,1.5), a=in_d(6,0.5,2); mk(c[1],c[2],c[3],0); dmode=1; N=nv*tot; for(i=0;i<N*N;i++) MM[i]=0; for(b=0;b<nb;b++) for(i=0;i<nn[b];i++) g->box[b]->v[C1][i]=0;
  for(i=0;i<N;i++) MM[i*N+i]= c[0]==0 ? a : i%2 ? 2 : 1;
  if(c[0]==1) MM[1]=0.5;
  if(c[0]==2) { pd[0]=1/a; pd[1]=1/(a+1); for(j=0;j<nv;j++) for(b=0;b<nb;b++) for(i=0;i<nn[b];i++) MM[lidx(j,b,i)*(N+1)]= i%2 ? a+1 : a; }
  for(b=0;b<nb;b++) for(j=0;j<nv;j++) for(i=0;i<nn[b];i++) { g->box[b]->v[Ind("b0")+j][i]= c[0]==1 ? t*(0.5+i+b+j) : i==0 ? t : 0.5+i+b+j; g->box[b]->v[U+j][i]= i==0 || c[0]==1 ? 0 : 0.25*(i+j); }
  ret=bicgstab(vx,vb,vr,v1,v2,c[0]==1 ? 2 : 1,1e-9,&res,lop,c[0]==2 ? diag : Preconditioner_I);
  lop(vr,vx,v1,v2);
  for(j=0;j<nv;j++) forallboxes(g,b) for(i=0;i<nn[b];i++) v_check("solution", g->box[b]->v[R+j][i], g->box[b]->v[Ind("b0")+j][i], 1e-7);
  if(c[0]!=1) v_true("solved", ret==1 && res<=1e-9);
  v_reach("end"); }
