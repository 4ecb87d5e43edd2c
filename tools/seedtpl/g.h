/* builds a grid through the parameter database, as a parameter file would */
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include "sgrid.h"
int sgrid_main(void); int sgrid_MemoryMan(void); int sgrid_Spectral(void); int sgrid_Coordinates(void);
static void P(const char *n, const char *v) { AddPar((char*)n,(char*)v,"x"); Sets((char*)n,(char*)v); }
static void Pi(const char *n, int v) { char s[100]; sprintf(s,"%d",v); P(n,s); }
static void start(int nb)
{ P("outdir","out"); P("parameterfile","out.par"); P("physics","x"); Pi("nboxes",nb); P("verbose","no"); P("dt","1"); }
static void dir(int b, int d, int n, const char *basis, const char *lo, const char *hi, const char *trafo)
{ char s[100];
  sprintf(s,"box%d_n%d",b,d); Pi(s,n); sprintf(s,"box%d_basis%d",b,d); P(s,basis);
  sprintf(s,"box%d_min%d",b,d); P(s,lo); sprintf(s,"box%d_max%d",b,d); P(s,hi);
  if(trafo) { sprintf(s,"box%d_TransformType%d",b,d); P(s,trafo); } }
static tGrid *mk(void)
{ sgrid_main(); sgrid_MemoryMan(); sgrid_Spectral(); sgrid_Coordinates(); return make_grid(0); }
static int bad;
static void near_(const char *what, double a, double b, double tol)
{ if(!(fabs(a-b)<=tol)) { printf("WRONG %s: %.15g instead of %.15g\n",what,a,b); bad=1; } }
