/* harness API: executed symbolically (SYMEX) or natively (replay) */
#ifndef VH_H
#define VH_H
double in_d(int k, double lo, double hi);      /* k-th symbolic input in [lo,hi] */
void v_assume(int c);
void v_check(const char *name, double a, double b, double tol);  /* |a-b|<=tol */
void v_le(const char *name, double a, double b, double tol);     /* a<=b+tol */
void v_true(const char *name, int c);
void v_deriv(const char *name, double f, double df, int k, double tol); /* df == d f/d input k */
/* sum_j a_j*(d x_j/d in_k) == delta_ik for k=1,2,3 */
void v_grad3(const char *name, double a1, double x1, double a2, double x2, double a3, double x3, int i, double tol);
/* d f/d in_k == sum_j b_j*(d x_j/d in_k) for k=1,2,3 */
void v_chain3(const char *name, double f, double b1, double x1, double b2, double x2, double b3, double x3, double tol);
void v_reach(const char *name);
void v_exit_ok(int f);
int  v_symbolic(void);
void v_trunc(int k, int deg);
double v_coef(double a, int k, int deg);
void v_series(const char *name, double a, double b, int k, int p); /* a-b=O(in_k^(p+1)) */
int  v_call_exits(void (*f)(void *), void *arg);
void v_debug(const char *name, double a);
void v_file_put(const char *n, const char *t);
int  in_i(int k, int lo, int hi);               /* k-th symbolic integer in [lo,hi] */
#endif
