/* Newton's method on the grid: the function, its norms, the linear solvers and the minimiser are stand-ins with any results */
#include "lin.h"
extern int (*Newton_do_before_linSolver)(tGrid *grid, tNewtonResults inp, tNewtonArgPointers out);
extern int (*Newton_do_after_step)(tVarList *, tVarList *, tVarList *, tVarList *);
int Newton(void (*)(tVarList *, tVarList *, tVarList *, tVarList *), void (*)(tVarList *, tVarList *, tVarList *, tVarList *), tVarList *, tVarList *, tVarList *, tVarList *, int, double, double *, int, tLinSolver, void (*)(tVarList *, tVarList *, tVarList *, tVarList *), tVarList *, tVarList *, tVarList *, tVarList *, int, double, double);
#define NS 60
typedef double tS[2][MB][4];
static tVarList *vF, *vd, *d1_, *d2_; static tS uF, vFu, du, uold, ustep; static double rlast, rstep, tolfac, ltol, lam, lopt, ms, uav, la, lb, lc; static int nF, nN, nS, nBef, nAft, nR, itm, which, repl, brak, brent, fresh, done, fullnorm, rnd0, quits, mode, optimal, stuck, jdu, esc, alt, nlist;
static double rfull;
static void get(tVarList *l, tS s) { int j, b, i; for(j=0;j<nv;j++) forallboxes(g,b) for(i=0;i<nn[b];i++) s[j][b][i]=g->box[b]->v[l->index[j]][i]; }
static void same(char *t, tS s, tS r) { int j, b, i; for(j=0;j<nv;j++) forallboxes(g,b) for(i=0;i<nn[b];i++) v_true(t, s[j][b][i]==r[j][b][i]); }
static void step(char *t, double l) { int j, b, i; for(j=0;j<nv;j++) forallboxes(g,b) for(i=0;i<nn[b];i++) v_check(t, g->box[b]->v[U+j][i], uold[j][b][i]-(1+l)*du[j][b][i], 1e-9); }
/* the step is complete: is it the right one? */
static void settle(void)
{ if(!done) return; done=0;
  if(mode>0 && lopt!=-1 && !brak) v_true("no_backtracking_only_if_better", rfull<rstep && !optimal);
  if(brak) { v_true("backtracking_only_if_worse", mode>0 && (rfull>=rstep || optimal)); v_true("minimum_searched", brent==1); v_reach("backtrack"); }
  step("step_taken", lopt); get(vx,ustep); lam=lopt; stuck= lam>-1-ms && lam<-1+ms; if(stuck) v_reach("stuck"); }
static void Fu(tVarList *F, tVarList *u, tVarList *c1, tVarList *c2)
{ int j, b, i; v_true("function_gets_lists", F==vF && u==vx && c1==v1 && c2==v2); get(u,uF);
  if(nS>0 && !done) { for(j=0;j<nv;j++) forallboxes(g,b) for(i=0;i<nn[b];i++) { if(stuck && esc && nR) { v_le("random_step_small", uF[j][b][i]-ustep[j][b][i], 0.001*uav, 1e-9); v_le("random_step_small", ustep[j][b][i]-uF[j][b][i], 0.001*uav, 1e-9); } else v_true("u_of_step_is_used", uF[j][b][i]==ustep[j][b][i]); } if(stuck && esc) { v_true("random_step_taken", nR==rnd0+nl()); rnd0=nR; } else v_true("no_random_step", nR==rnd0); }
  for(j=0;j<nv;j++) forallboxes(g,b) for(i=0;i<nn[b];i++) g->box[b]->v[F->index[j]][i]=in_d(20000+nF*24+12*j+4*b+i,-2,2); get(F,vFu); nF++; }
static void Jdu(tVarList *J, tVarList *d, tVarList *q1, tVarList *q2) { int j, b, i; v_true("linearization_gets_lists", J==vr && d==vd && q1==d1_ && q2==d2_); for(j=0;j<nv;j++) forallboxes(g,b) for(i=0;i<nn[b];i++) v_true("derivatives_of_du_reset", g->box[b]->v[d->index[j]][i]==0); jdu++; settle(); }
static void Prec(tVarList *x, tVarList *b, tVarList *c1, tVarList *c2) { (void)x; }
double GridL2Norm(tVarList *l)
{ tS s; if(l==vx) { uav=in_d(1700+nN++,0.5,2); return uav; }
  v_true("norm_is_of_function", l==vF && nF>0); get(l,s); same("norm_of_new_function",s,vFu); rlast=in_d(1000+nN++,0,2); if(done && !brak) rfull=rlast; return rlast; }
double RND(void) { return in_d(1900+nR++,0,1); }
void mnbrak_with_pointer_to_pars(double *a, double *b, double *c, double *fa, double *fb, double *fc, double (*f)(double, void *), void *p)
{ double l=in_d(1400+nS,-2,2), q; step("full_step_first",0); v_true("search_starts_between_old_and_full", *a<=-1 && *c>=0 && *b<0 && *b>-1); brak++; q=f(l,p); v_true("residual_returned", q==rlast); step("trial_step",l); *a=la=in_d(1430+nS,-2,2); *b=lb=in_d(1460+nS,-2,2); *c=lc=in_d(1490+nS,-2,2); *fa=*fb=*fc=q; }
double brent_with_pointer_to_pars(double a, double b, double c, double (*f)(double, void *), double tol, double *xm, void *p)
{ double l=in_d(1520+nS,-2,2), q; brent++; v_true("bracket_used", brak==1 && a==la && b==lb && c==lc); q=f(l,p); step("trial_step",l); lopt=*xm=in_d(1550+nS,-1.5,1); return q; }
static int bef(tGrid *q, tNewtonResults in, tNewtonArgPointers out) { settle(); v_true("function_before_solver", q==g && in.lambda==lam && nBef==nAft); v_true("quit_if_stuck", !(quits && stuck)); nBef++; if(repl) *out.linSolver=UMFPACK_solve_wrapper; return 0; }
static int aft(tVarList *F, tVarList *u, tVarList *c1, tVarList *c2) { settle(); v_true("function_after_step", F==vF && u==vx && c1==v1 && c2==v2 && nBef==nAft+1); if(alt && stuck) v_true("all_solvers_tried", which==nlist); nAft++; which=-1; return 0; }
/* number w in the order of solvers */
static int solve(int w, tVarList *x, tVarList *F, tVarList *r, tVarList *q1, tVarList *q2, int it, double tol, double *res, void (*L)(tVarList *, tVarList *, tVarList *, tVarList *), void (*P)(tVarList *, tVarList *, tVarList *, tVarList *))
{ int j, b, i, c; double t=rlast*tolfac; tS s; settle(); if(t<ltol) t=ltol;
  v_true("solver_gets_problem", x==vd && F==vF && r==vr && q1==d1_ && q2==d2_ && it==17 && L==Jdu && P==Prec && res!=NULL); v_true("tolerance_for_solver", tol==t);
  if(which<0) { v_true("first_solver", w==repl); which=0; } else { which++; v_true("next_solver_if_stuck", alt && stuck && w==which); v_reach("next_solver"); }
  get(vx,uold); get(F,s); same("right_hand_side_is_function",s,vFu); same("function_of_present_u",uF,uold); rstep=rlast; brak=brent=0;
  for(j=0;j<nv;j++) forallboxes(g,b) for(i=0;i<nn[b];i++) g->box[b]->v[x->index[j]][i]=in_d(30000+nS*24+12*j+4*b+i,-1,1); get(x,du);
  *res=in_d(1200+nS,0,1); c=pick(1230+nS,-1,1); nS++; done=1; lopt= c<0 ? -1 : 0; rfull=9; return c; }
#define SV(n,k) n(tVarList *x, tVarList *F, tVarList *r, tVarList *q1, tVarList *q2, int it, double tol, double *res, void (*L)(tVarList *, tVarList *, tVarList *, tVarList *), void (*P)(tVarList *, tVarList *, tVarList *, tVarList *)) { return solve(k,x,F,r,q1,q2,it,tol,res,L,P); }
static int SV(first,0)
int SV(UMFPACK_solve_wrapper,1)
int SV(LAPACK_dgesv_wrapper,2)
/* c[0]: itmax, c[1]: variables, c[2]: boxes, c[3]: inactive, c[4]: step 0 full 1 backtrack 2 optimal, c[5]: at a local minimum 0 nothing 1 escape 2 quit 3 other solvers, c[6]: 1 solver is replaced, c[7]: no Jdu at the end, c[8]: number of other solvers */
void h_newton(int *c)
{ static char *M[3]={"full","backtrack","backtrack optimal"}, *A[5]={"donothing","escapeMin","quit","AltLinSolver","escapeMin AltLinSolver"}; int i, j, b, ret; double tol=in_d(1,0.1,1), res=-1; tS u0, u1;
  mk(c[1],c[2],c[3],0); vF=mkvl(Ind("b0"),nv); vd=mkvl(C1,nv); d1_=mkvl(C1,1); d2_=mkvl(C2,1); Sets("GridIterators_Newtonstep",M[c[4]]); Sets("GridIterators_Newton_atlocalMin",A[c[5]]); Sets("GridIterators_Newton_linSolvers",c[8]==1 ? "UMFPACK_solve_wrapper" : "UMFPACK_solve_wrapper LAPACK_dgesv_wrapper"); nlist= c[8]==1 ? 1 : 2; if(c[7]) Sets("GridIterators_Newton_EndOfStep","no");
  esc= c[5]==1 || c[5]==4; alt=c[5]>=3; quits=c[5]==2; mode=c[4]; optimal=c[4]==2; ms=0.05; itm=c[0]; tolfac=in_d(2,0,1); ltol=in_d(3,0,1); which=-1; repl=c[6]; lam=0; get(vx,u0);
  Newton_do_before_linSolver=bef; Newton_do_after_step=aft;
  ret=Newton(Fu,Jdu,vx,vF,v1,v2,c[0],tol,&res,0,first,Prec,vd,vr,d1_,d2_,17,tolfac,ltol);
  get(vx,u1); same("final_function_of_final_u",uF,u1); v_true("residual_is_that_of_final_u", res==rlast);
  v_true("converged_if_early", ret>=c[0] || res<=tol); v_true("number_of_steps", nAft==nBef && nAft<=c[0] && nAft<=ret && ret<=c[0]+1);
  if(nBef==0) same("unchanged_if_solved",u0,u1);
  if(ret<c[0]) { v_true("steps_counted", ret==nAft && !(quits && stuck)); v_reach("converged"); } else v_reach("not_converged");
  v_reach("end"); }

/* the solver with the given name */
static char NMX[40]; static void noname(void *p) { get_linSolver_by_name(NMX); }
void h_name(int *c)
{
#define NMS(X) X(bicgstab) X(bicgstab_with_fd_UMFPACK_precon) X(LAPACK_dgesv_wrapper) X(templates_gmres_wrapper) X(templates_gmres_wrapper_with_fd_UMFPACK_precon) X(templates_bicgstab_wrapper) X(templates_bicgstab_wrapper_with_fd_UMFPACK_precon) X(templates_cgs_wrapper) X(templates_cgs_wrapper_with_fd_UMFPACK_precon) X(UMFPACK_solve_wrapper) X(SuiteSparseQR_solve_wrapper) X(UMFPACK_solve_forSortedVars_wrapper) X(bicgstab_with_Jacobi_precon) X(templates_gmres_wrapper_with_Jacobi_precon) X(templates_gmres_wrapper_with_BlockJacobi_precon) X(templates_bicgstab_wrapper_with_Jacobi_precon) X(templates_cgs_wrapper_with_Jacobi_precon) X(templates_qmr_wrapper_with_Jacobi_precon) X(templates_bicg_wrapper_with_Jacobi_precon) X(templates_bicgstab_wrapper_with_BlockJacobi_precon) X(ZIB_gmres_wrapper_with_BlockJacobi_precon) X(ZIB_gbit_wrapper_with_BlockJacobi_precon) X(ZIB_pcg_wrapper_with_BlockJacobi_precon) X(templates_qmr_wrapper) X(templates_bicg_wrapper) X(bicgstab_with_SOR_precon) X(templates_gmres_wrapper_with_SOR_precon) X(templates_bicgstab_wrapper_with_SOR_precon) X(templates_cgs_wrapper_with_SOR_precon)
#define NM1(x) #x,
#define NM2(x) (tLinSolver)x,
  static char *nm[]={ NMS(NM1) 0 }; static tLinSolver f[]={ NMS(NM2) 0 }; int n=sizeof(nm)/sizeof(*nm)-1, i=pick(1,0,n-1), k;
  v_true("solver_with_this_name", get_linSolver_by_name(nm[i])==f[i]);
  strcpy(NMX,"bicgstab"); k=pick(2,0,7); NMX[k]=in_i(3,33,126); v_assume(NMX[k]!="bicgstab"[k]); v_true("unknown_name_refused", v_call_exits(noname,0));
  v_reach("end"); }
