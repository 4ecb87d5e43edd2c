/* builds a real grid through sgrid's own parameter database and grid code */
#ifndef VGRID_H
#define VGRID_H
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include "sgrid.h"
#include "vh.h"
int sgrid_main(void); int sgrid_MemoryMan(void); int sgrid_Spectral(void); int sgrid_Coordinates(void);
int sgrid_boundary(void); int sgrid_GridIterators(void); int sgrid_LinAlg(void);
int init_CoordTransform_And_Derivs(tGrid *grid);
int init_FFTW3_plans(tGrid *grid);
static const char *vg_bn[]={"ChebExtrema","ChebZeros","Fourier","fd2_onesided","fd2_periodic"};
static void vg_par(const char *n, const char *v) { AddPar((char*)n,(char*)v,"x"); Sets((char*)n,(char*)v); }
static void vg_pari(const char *n, int v) { char s[100]; sprintf(s,"%d",v); vg_par(n,s); }
static void vg_box(int b, int n1,int n2,int n3, int b1,int b2,int b3, const char *lo1,const char*hi1,const char*lo2,const char*hi2,const char*lo3,const char*hi3)
{
  char s[100]; int d; int n[3]; int bs[3]; const char *lo[3], *hi[3];
  n[0]=n1; n[1]=n2; n[2]=n3; bs[0]=b1; bs[1]=b2; bs[2]=b3;
  lo[0]=lo1; lo[1]=lo2; lo[2]=lo3; hi[0]=hi1; hi[1]=hi2; hi[2]=hi3;
  for(d=0;d<3;d++)
  {
    sprintf(s,"box%d_n%d",b,d+1); vg_pari(s,n[d]);
    sprintf(s,"box%d_basis%d",b,d+1); vg_par(s,vg_bn[bs[d]]);
    sprintf(s,"box%d_min%d",b,d+1); vg_par(s,lo[d]);
    sprintf(s,"box%d_max%d",b,d+1); vg_par(s,hi[d]);
  }
}
static void vg_start(int nb)
{
  vg_par("outdir","out"); vg_par("parameterfile","out.par"); vg_par("physics","x");
  vg_pari("nboxes",nb); vg_par("verbose","no"); vg_par("dt","1");
}
static void vg_trafo(int b, int d, const char *t) { char s[100]; sprintf(s,"box%d_TransformType%d",b,d); vg_par(s,t); }
static tGrid *vg_grid(int coords)
{
  tGrid *g;
  sgrid_main(); sgrid_MemoryMan(); sgrid_Spectral(); sgrid_Coordinates();
  init_FFTW3_plans(0);
  g=make_grid(0);
  return g;
}
#endif
