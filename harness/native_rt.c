/* native side of the harness API: used to replay counterexamples on the real build.
   usage: exe harness out.txt infile cfg...   (infile: lines "k hexdouble") */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <dlfcn.h>
#include <setjmp.h>
#include <unistd.h>
#include "vh.h"
static double inv_[100000]; static char have[100000];
static FILE *out;
static int exit_ok;
double in_d(int k, double lo, double hi)
{ static int seed=-1; double x;
  if(seed<0) seed= getenv("VPERTURB") ? atoi(getenv("VPERTURB")) : 0;
  if(seed>0) { unsigned h=(unsigned)k*2654435761u+(unsigned)seed*40503u; h^=h>>13; h*=1274126177u; h^=h>>16;
    if(lo<-1e3) lo=-1e3; if(hi>1e3) hi=1e3;
    x=lo+(hi-lo)*((h&0xffffff)/16777216.0+1e-9*(h>>24)); if(x>hi) x=hi;
    fprintf(out,"IN %d %a\n",k,x); return x; }
  if(k<0||k>=100000||!have[k]) return (lo+hi)/2; return inv_[k]; }
int in_i(int k, int lo, int hi)
{ double x; if(k<0||k>=100000||!have[k]) return lo; x=inv_[k]; return (int) x; }
void v_assume(int c) { if(!c) { fprintf(out,"ASSUME\n"); fflush(out); _exit(0);} }
void v_check(const char *name, double a, double b, double tol)
{ double d=fabs(a-b); int ok = (d<=tol) || (a==b) || (isnan(a)&&isnan(b));
  fprintf(out,"CHECK %d %s %.17g %.17g %g\n", ok, name, a, b, tol); fflush(out); }
void v_le(const char *name, double a, double b, double tol)
{ int ok=(a<=b+tol); fprintf(out,"LE %d %s %.17g %.17g %g\n", ok, name, a, b, tol); fflush(out); }
void v_true(const char *name, int c) { fprintf(out,"TRUE %d %s\n", !!c, name); fflush(out); }
void v_deriv(const char *name, double f, double df, int k, double tol)
{ fprintf(out,"DERIV %s %.17g %.17g %d %g\n", name, f, df, k, tol); fflush(out); }
void v_grad3(const char *name, double a1, double x1, double a2, double x2, double a3, double x3, int i, double tol)
{ fprintf(out,"GRAD %s %.17g %.17g %.17g %.17g %.17g %.17g %d %g\n", name, a1,x1,a2,x2,a3,x3,i,tol); fflush(out); }
void v_chain3(const char *name, double f, double b1, double x1, double b2, double x2, double b3, double x3, double tol)
{ fprintf(out,"CHAIN %s %.17g %.17g %.17g %.17g %.17g %.17g %.17g %g\n", name, f, b1,x1,b2,x2,b3,x3,tol); fflush(out); }
void v_reach(const char *name) { fprintf(out,"REACH %s\n", name); fflush(out); }
void v_exit_ok(int f) { exit_ok=f; }
int v_symbolic(void) { return 0; }
void v_trunc(int k, int deg) { }
double v_coef(double a, int k, int deg) { return 0; }
void v_series(const char *name, double a, double b, int k, int p)
{ fprintf(out,"SERIES %s %.17g %.17g %d %d\n", name, a, b, k, p); fflush(out); }
void v_debug(const char *name, double a) { printf("DEBUG %s %g\n", name, a); }
void v_file_put(const char *n, const char *t)
{ FILE *f=fopen(n,"w"); if(f){ fputs(t,f); fclose(f);} }
static jmp_buf jb; static int catching;
void exit(int c)
{ if(catching) longjmp(jb,1);
  fprintf(out,"EXIT %d\n", exit_ok); fflush(out); fflush(stdout); _exit(0); }
void abort(void) { exit(134); }
int v_call_exits(void (*f)(void *), void *arg)
{ if(setjmp(jb)) { catching=0; return 1; }
  catching=1; f(arg); catching=0; return 0; }
int main(int argc, char **argv)
{ int k; char s[200]; FILE *f; void (*h)(int *); int cfg[64];
  memset(cfg,0,sizeof cfg);
  out=fopen(argv[2],"w");
  f=fopen(argv[3],"r");
  if(f) { while(fscanf(f,"%d %199s",&k,s)==2) if(k>=0&&k<100000) { inv_[k]=strtod(s,0); have[k]=1; } fclose(f); }
  for(k=4;k<argc;k++) cfg[k-4]=atoi(argv[k]);
  h=(void(*)(int*)) dlsym(RTLD_DEFAULT, argv[1]);
  if(!h) { fprintf(out,"NOHARNESS\n"); return 3; }
  h(cfg);
  fprintf(out,"DONE\n"); fclose(out);
  return 0;
}
