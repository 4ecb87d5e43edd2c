From 706d310e5e616ba580430bd3ce526e52b605c468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 01/30] fix: Fourier basis functions count X from the start of
 the interval

The collocation points start at a, so interpolating at X has to use X-a;
for a box that does not start at 0 the interpolated values were wrong.
---
 src/utility/Spectral/explicit_Four_trafos.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utility/Spectral/explicit_Four_trafos.c b/src/utility/Spectral/explicit_Four_trafos.c
index 2c174f4..ea2c5e7 100644
--- a/src/utility/Spectral/explicit_Four_trafos.c
+++ b/src/utility/Spectral/explicit_Four_trafos.c
@@ -222,9 +222,9 @@ double four_basisfunc_alt(void *aux, double a, double b, int n, int N, double X)
   double K = 2.0*PI/(b-a);
   int j = n/2 + n%2;
 
-  if(n%2!=0) return cos(j*K*X);
+  if(n%2!=0) return cos(j*K*(X-a));
   if(n==0)   return 1.0;
-  return sin(j*K*X);
+  return sin(j*K*(X-a));
 }
 
 
@@ -235,9 +235,9 @@ double four_basisfunc(void *aux, double a, double b, int k, int N, double X)
   int j = k/2 + k%2;
 
   if(k==0)              return 1.0/N;
-  if(k==N-1 && N%2==0)  return cos(j*K*X)*1.0/N;;
-  if(k%2!=0)            return cos(j*K*X)*2.0/N;
-  return sin(j*K*X)*2.0/N;
+  if(k==N-1 && N%2==0)  return cos(j*K*(X-a))*1.0/N;;
+  if(k%2!=0)            return cos(j*K*(X-a))*2.0/N;
+  return sin(j*K*(X-a))*2.0/N;
 }
 
 
-- 
2.43.0


From b171d691cc68f51d0f29bf8137e63265d1ad91a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:28 +0000
Subject: [PATCH 02/30] fix: sphericalDF integrals include the highest theta
 mode for odd N

For odd N the modes run up to (N-1)/2 = N/2, but the loop stopped at n<N/2
so the last mode was lost if (N-1)/2 is even.
---
 src/utility/Spectral/integrals.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/Spectral/integrals.c b/src/utility/Spectral/integrals.c
index a6b8a2f..d704f05 100644
--- a/src/utility/Spectral/integrals.c
+++ b/src/utility/Spectral/integrals.c
@@ -390,7 +390,7 @@ void spec_sphericalDF2dIntegral(tBox *box, double *u, double *U)
           sum = (1.0/PI) * U[Index(i,0,k)];
           sum += 0.5*( sin(PI2*d) * U[Index(i,1,k)]
                       +cos(PI2*d) * U[Index(i,2,k)] );
-          for(n=2;n<N/2;n+=2)
+          for(n=2;n<=(N-1)/2;n+=2)
           {
             Re_c_n = U[Index(i, 2*n-1, k)]; /* c[2*n-1]; */
             Im_c_n = U[Index(i, 2*n, k)];   /* c[2*n];   */
@@ -479,7 +479,7 @@ void spec_sphericalDF2dIntegral_at_radial_index_i(tBox *box,
           sum = (1.0/PI) * U[Index(i,0,k)];
           sum += 0.5*( sin(PI2*d) * U[Index(i,1,k)]
                       +cos(PI2*d) * U[Index(i,2,k)] );
-          for(n=2;n<N/2;n+=2)
+          for(n=2;n<=(N-1)/2;n+=2)
           {
             Re_c_n = U[Index(i, 2*n-1, k)]; /* c[2*n-1]; */
             Im_c_n = U[Index(i, 2*n, k)];   /* c[2*n];   */
-- 
2.43.0


From 6c3405433097fd8a23455ed085d13af4d13e7dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 03/30] fix: boxes with the finite difference bases can be
 created again

initIntegrationMatrix called coeffs_of_int, which is NULL for fd2_onesided
and fd2_periodic, so every grid with these bases crashed.
---
 src/utility/Spectral/diffmatrices.c |  3 +++
 src/utility/Spectral/integrals.c    | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/utility/Spectral/diffmatrices.c b/src/utility/Spectral/diffmatrices.c
index aa1f74a..c63626a 100644
--- a/src/utility/Spectral/diffmatrices.c
+++ b/src/utility/Spectral/diffmatrices.c
@@ -283,6 +283,9 @@ void initIntegrationMatrix(double a, double b, double *Int, int n1,
   double *c;
   double *d;
 
+  /* the finite difference bases come without coeffs_of_int */
+  if(coeffs_of_int==NULL) return;
+
   u = (double *) calloc(n1, sizeof(double));
   c = (double *) calloc(n1, sizeof(double));
   d = (double *) calloc(n1, sizeof(double));
diff --git a/src/utility/Spectral/integrals.c b/src/utility/Spectral/integrals.c
index d704f05..ec397f0 100644
--- a/src/utility/Spectral/integrals.c
+++ b/src/utility/Spectral/integrals.c
@@ -511,6 +511,19 @@ void spec_Int1(tBox *box, int direc, double *u, double *U)
   int n2=box->n2;
   int n3=box->n3;
 
+  void (*get_coeffs)(double *,double *, int)=NULL;
+  void (*coeffs_of_deriv)(void *, double, double, double *,double *, int)=NULL;
+  void (*coeffs_of_2ndderiv)(void *, double, double, double *,double *, int)=NULL;
+  void (*coeffs_of_int)(double, double, double *,double *, int)=NULL;
+  void (*eval_onPoints)(double *,double *, int)=NULL;
+  void (*filter_coeffs)(double *, int, int)=NULL;
+  double (*basisfunc)(void *aux, double a, double b, int k, int N, double X)=NULL;
+
+  get_spec_functionpointers(box, direc, &get_coeffs, &coeffs_of_deriv,
+                            &coeffs_of_2ndderiv, &coeffs_of_int, &eval_onPoints,
+                            &filter_coeffs, &basisfunc);
+  if(coeffs_of_int==NULL) errorexit("spec_Int1: don't know how to integrate");
+
   /* memory for lines */
   if(direc==1)      m3=n1;
   else if(direc==2) m3=n2;
-- 
2.43.0


From 50591621cec588baba4769983d7f93cbbfee90dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 04/30] fix: no numrec cosine transform for two Chebyshev
 extrema

numrec_cosft1 needs at least two intervals, with one interval (2 points) it
returns wrong coefficients, so use the matrix transform there.
---
 src/utility/Spectral/spec_coeffs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/Spectral/spec_coeffs.c b/src/utility/Spectral/spec_coeffs.c
index 941dd77..1fefa3c 100644
--- a/src/utility/Spectral/spec_coeffs.c
+++ b/src/utility/Spectral/spec_coeffs.c
@@ -617,7 +617,7 @@ void set_TransformType_flags_inbox(tBox *box)
     snprintf(bas, 999, "box%d_basis%d", box->b, dir);
     /* printf("str=%s=%s\nbas=%s=%s\n", str, Gets(str), bas, Gets(bas)); */
     if( Getv(str, "NUMREC_FFT") && nb>=Geti(str) && Geti(str)>=0 &&
-        ( (Getv(bas, "ChebExtrema") && is_power_of_two(nb-1)) ||
+        ( (Getv(bas, "ChebExtrema") && nb>2 && is_power_of_two(nb-1)) ||
           (Getv(bas, "ChebZeros") && is_power_of_two(nb)) ||
           (Getv(bas, "Fourier") && is_power_of_two(nb))          )  )
       *Ttype=NUMREC_FFT;
-- 
2.43.0


From 7d1759fbe07015a81698c83181d41bb22b982491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:23 +0000
Subject: [PATCH 05/30] fix: minbrent_brak keeps its step from one iteration to
 the next

---
 src/utility/numerics/minbrent_brak.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utility/numerics/minbrent_brak.c b/src/utility/numerics/minbrent_brak.c
index c452d8e..29e7682 100644
--- a/src/utility/numerics/minbrent_brak.c
+++ b/src/utility/numerics/minbrent_brak.c
@@ -25,7 +25,7 @@ int minbrent_brak(double (*f)(double x, void *p), void *par,
 {
   double a,b;
   double fu,fv,fw,fx, u,v,w,x;
-  double e;
+  double d,e;
   int iter;
 
   /* order a,b */
@@ -37,10 +37,10 @@ int minbrent_brak(double (*f)(double x, void *p), void *par,
   fx = fw = fv = (*f)(x, par);
 
   /* do iterations */
-  e = 0.;
+  d = e = 0.;
   for(iter=1; iter<=maxits; iter++)
   {
-    double d, etemp,p,q,r;
+    double etemp,p,q,r;
     double xm = 0.5*(a+b);
     double tol1 = tol*fabs(x) + ZERO_EPS;
     double tol2 = 2.*tol1;
-- 
2.43.0


From 3c6b33213932d24e22ab7fec30fb210814b2fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 06/30] fix: PolarCE radial derivatives use the angle, not the
 coordinate Y

---
 src/utility/Coordinates/Coordinates.c | 20 ++++++++++++++++++--
 src/utility/Coordinates/Coordinates.h |  2 ++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index 40e8009..7894bff 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -126,8 +126,8 @@ int init_CoordTransform_And_Derivs(tGrid *grid)
       box->x_of_X[2] = y_ofPolarCE;
       box->x_of_X[3] = z_equals_Z;
 
-      box->dX_dx[1][1] = drho_dx;
-      box->dX_dx[1][2] = drho_dy;
+      box->dX_dx[1][1] = drhoPolarCE_dx;
+      box->dX_dx[1][2] = drhoPolarCE_dy;
       box->dX_dx[1][3] = zero_of_xyz;
       box->dX_dx[2][1] = dYPolarCE_dx;
       box->dX_dx[2][2] = dYPolarCE_dy;
@@ -1301,6 +1301,22 @@ double y_ofPolarCE(void *aux, int ind, double rho, double Y, double Z)
 /* first coord. derivs */
 /* NOTE: Y = PI*( 1.0 - cos( ((N-1.0)/(2.0*N)) * phi ) )             */
 /* dY/dphi = PI*((N-1.0)/(2.0*N)) * sin( ((N-1.0)/(2.0*N)) * phi )   */
+double drhoPolarCE_dx(void *aux, int ind, double rho, double Y, double Z)
+{
+  tBox *box = (tBox *) aux;
+  int N = box->n2 - 1;
+  double phi = ((2.0*N)/(N-1.0)) * acos( 1.0 - Y/PI );
+
+  return drho_dx(aux,ind, rho, phi, Z);
+}
+double drhoPolarCE_dy(void *aux, int ind, double rho, double Y, double Z)
+{
+  tBox *box = (tBox *) aux;
+  int N = box->n2 - 1;
+  double phi = ((2.0*N)/(N-1.0)) * acos( 1.0 - Y/PI );
+
+  return drho_dy(aux,ind, rho, phi, Z);
+}
 double dYPolarCE_dx(void *aux, int ind, double rho, double Y, double Z)
 {
   tBox *box = (tBox *) aux;
diff --git a/src/utility/Coordinates/Coordinates.h b/src/utility/Coordinates/Coordinates.h
index a22f6eb..37c3b3b 100644
--- a/src/utility/Coordinates/Coordinates.h
+++ b/src/utility/Coordinates/Coordinates.h
@@ -77,6 +77,8 @@ double dphi_dydy(void *aux, int ind, double rho, double phi, double Z);
 /* PolarCE coordinates: */
 double x_ofPolarCE(void *aux, int ind, double rho, double Y, double Z);
 double y_ofPolarCE(void *aux, int ind, double rho, double Y, double Z);
+double drhoPolarCE_dx(void *aux, int ind, double rho, double Y, double Z);
+double drhoPolarCE_dy(void *aux, int ind, double rho, double Y, double Z);
 double dYPolarCE_dx(void *aux, int ind, double rho, double Y, double Z);
 double dYPolarCE_dy(void *aux, int ind, double rho, double Y, double Z);
 
-- 
2.43.0


From 7143fbf20917fc72a7a0694963f1eb44ff07fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 07/30] fix: Getv missed a list entry that is also the end of
 an earlier entry

---
 src/main/main/parameters.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 60b2ac3..7cfc880 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -419,25 +419,23 @@ double Getd(char *name)
 int GetvFlag(char *name, char *value, int fatal)
 {
   tParameter *p = findparameter(name, fatal);
-  char *s=NULL;
+  char *s;
   char *parval;
-  int lv, ls, lp, startok, endok;
+  int lv, startok, endok;
 
   if (!p) return 0;
+  lv = strlen(value);
   parval = p->value;
+  /* look at each place where value occurs */
   while( (s = strstr(parval, value)) )
   {
-    lv = strlen(value);
-    //printf("ls=%d  value=%s| s=%s| p->value=%s|\n", ls, value, s, p->value); 
-    if( s[lv]==' ' || s[lv]==0 ) break;
+    startok = (s == p->value || *(s-1) == ' ');  /* how robust is this? */
+    endok   = (s[lv] == ' ' || s[lv] == 0);
+    if(startok && endok) return 1;
+    if(*s == 0) break;
     parval = s+1;
   }
-  if (!s) return 0;
-  ls = strlen(s);
-  lp = strlen(p->value);
-  startok = (s == p->value || *(s-1) == ' ');  /* how robust is this? */
-  endok   = (s+ls == p->value+lp || *(s+ls) == ' ');
-  return startok && endok ? 1 : 0;
+  return 0;
 }
 
 int GetvLax(char *name, char *value)
-- 
2.43.0


From 95e4c3342cfc7e98d32d8ac035c3a63397e39fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 08/30] fix: remove_dir works with absolute and long paths and
 does not follow links

---
 src/main/main/utilities.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/main/main/utilities.c b/src/main/main/utilities.c
index 3cfaf03..0733687 100644
--- a/src/main/main/utilities.c
+++ b/src/main/main/utilities.c
@@ -313,13 +313,22 @@ int copy_file_into_dir(char *fname, char *dir)
   return copy_file(fname, newname);
 }
 
-/* use opendir to scan through dir and remove the entire dir */
+/* use opendir to scan through dir and remove the entire dir
+   (symbolic links are removed, but not followed) */
 int remove_dir(char *which_dir)
 {
   DIR           *d;
   struct dirent *dir;
-  char file[1000];
-  
+  struct stat   st;
+  char *file;
+  int ret;
+
+  /* nothing to do if which_dir does not exist */
+  if(lstat(which_dir, &st)!=0) return 0;
+
+  /* if it is not a directory just remove it */
+  if(!S_ISDIR(st.st_mode)) return (remove(which_dir)!=0) ? -1 : 0;
+
   d = opendir(which_dir);
   if(d)
   {
@@ -329,19 +338,17 @@ int remove_dir(char *which_dir)
       if( strcmp( dir->d_name, "." ) == 0 || strcmp( dir->d_name, ".." ) == 0)
         continue;
 
-      snprintf(file, 999, "./%s/%s", which_dir, dir->d_name);
+      file = cmalloc(strlen(which_dir) + strlen(dir->d_name) + 2);
+      sprintf(file, "%s/%s", which_dir, dir->d_name);
       //printf("*"); //print * for every deleted file
 
-      if(opendir(file)!=NULL) remove_dir(file);
-      else
+      ret = remove_dir(file);
+      free(file);
+      if(ret!=0)
       {
-        if(remove(file) != 0)
-        {
-          //printf("\n%s\n", file);
-          //perror("Remove failed");
-          closedir(d);
-          return -2;
-        }
+        //perror("Remove failed");
+        closedir(d);
+        return -2;
       }
     } /* end of while loop */
 
-- 
2.43.0


From e94b6f9049d1b268756886e50359e2d9976c024d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 09/30] fix: get_par_from_str without a name in the string

---
 src/main/main/utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/main/utilities.c b/src/main/main/utilities.c
index 0733687..e72d20e 100644
--- a/src/main/main/utilities.c
+++ b/src/main/main/utilities.c
@@ -243,7 +243,7 @@ int get_par_from_str(const char *str, char *name, const char *delim,
   nam = strtok_r(str2, delim, &saveptr);
   val = strtok_r(NULL, delim, &saveptr);
 
-  if( (!(*nam)) || (strlen(str2)==strlen(str)) )
+  if( (!nam) || (!(*nam)) || (strlen(str2)==strlen(str)) )
   {
     ret = 0;
   }
-- 
2.43.0


From c4841dd765d05ba5574589e9be87d5a92825dbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 10/30] fix: room for command line options of any length

---
 src/main/main/main.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/main/main.c b/src/main/main/main.c
index ff5d075..6cb5b08 100644
--- a/src/main/main/main.c
+++ b/src/main/main/main.c
@@ -207,7 +207,7 @@ int read_command_line(int argc, char **argv)
     int nopts, nargs;
     char argi[1000];
     char descr[1000];
-    char options[1000];
+    char *options;
     char *parfile = (char *) calloc(strlen(argv[1])+40, sizeof(char));
     char *outdir  = (char *) calloc(strlen(argv[1])+40, sizeof(char));
     int parnamelen;
@@ -230,7 +230,8 @@ int read_command_line(int argc, char **argv)
 
     /* add other args */
     nargs=nopts=0;
-    options[0]=0;
+    for(parnamelen=1, i=2; i<argc; i++) parnamelen += strlen(argv[i])+1;
+    options = (char *) calloc(parnamelen, sizeof(char));
     for(i=2; i<argc; i++)
     {
       if(argv[i][0]=='-')
@@ -238,8 +239,8 @@ int read_command_line(int argc, char **argv)
         if(strlen(argv[i])==1) errorexit("- is not a valid option");
         if(argv[i][1]!='-') errorexit("all options must start with --");
         /* save all options in options */
-        if(nopts>0) strncat(options, " ", 999);
-        strncat(options, argv[i], 999);
+        if(nopts>0) strcat(options, " ");
+        strcat(options, argv[i]);
         nopts++;
       }
       else
@@ -253,6 +254,7 @@ int read_command_line(int argc, char **argv)
     /* add sgrid command line options */
     if(nopts>0) AddPar("sgrid_options", options, "sgrid command line options");
 
+    free(options);
     free(parfile);
     free(outdir);
   }
-- 
2.43.0


From d4247029f8b3af94442a0ee5dcef7903aec6a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 11/30] fix: room for all boxes in the copy of a point list

---
 src/main/MemoryMan/points.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/MemoryMan/points.c b/src/main/MemoryMan/points.c
index a623b21..4d2cf9f 100644
--- a/src/main/MemoryMan/points.c
+++ b/src/main/MemoryMan/points.c
@@ -222,7 +222,7 @@ tPointList *DuplicatePointList_for_grid(tPointList *PL0, tGrid *grid)
   }
 
   /* copy the blist */
-  ret=realloc(PL->blist, ( sizeof(*(PL->blist)) )*(PL->nblist+2));
+  ret=realloc(PL->blist, ( sizeof(*(PL->blist)) )*(PL0->nblist+2));
   if(ret==NULL) 
     errorexit("DuplicatePointList: not enough memory for PL->blist");
   PL->blist  = ret;
-- 
2.43.0


From 983156ef32831f2504890430f17d2cd72c0d46ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 12/30] fix: reflection symmetries of tensors with indices
 (ab)(ij)

---
 src/main/main/tensors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/main/tensors.c b/src/main/main/tensors.c
index 74f7740..9774bad 100644
--- a/src/main/main/tensors.c
+++ b/src/main/main/tensors.c
@@ -265,8 +265,8 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     for (k = 0; k < 3; k++)
     for (l = k; l < 3; l++)
     {
-      if (i > 0) sym[3*n+i] *= -1; 
-      if (j > 0) sym[3*n+j] *= -1;
+      if (i > 0) sym[3*n+i-1] *= -1; 
+      if (j > 0) sym[3*n+j-1] *= -1;
       sym[3*n+k] *= -1;
       sym[3*n+l] *= -1;
       ilist[n] = calloc(ilistSTRLEN, sizeof(char));
-- 
2.43.0


From 4cc6c444a0601a0df185f6044a12ceea7b460c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 13/30] fix: accept the documented index strings for pairs of
 symmetric indices

---
 src/main/main/tensors.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/main/tensors.c b/src/main/main/tensors.c
index 9774bad..6dc4575 100644
--- a/src/main/main/tensors.c
+++ b/src/main/main/tensors.c
@@ -150,7 +150,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "ijkl+ijlk+jikl+jilk)") == 0 ||
+  if(strcmp(tensorindices, "ijkl+ijlk+jikl+jilk") == 0 ||
      strcmp(tensorindices, "(ij)(kl)") == 0) {
     for (i = 0; i < 3; i++)
     for (j = i; j < 3; j++) 
@@ -258,7 +258,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "abij+abji+baij+baji)") == 0 ||
+  if(strcmp(tensorindices, "abij+abji+baij+baji") == 0 ||
      strcmp(tensorindices, "(ab)(ij)") == 0) {
     for (i = 0; i <= 3; i++)
     for (j = i; j <= 3; j++) 
@@ -317,7 +317,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "qrst+qrts+rqst+rqts)") == 0 ||
+  if(strcmp(tensorindices, "qrst+qrts+rqst+rqts") == 0 ||
      strcmp(tensorindices, "(qr)(st)") == 0) {
     for (i = 0; i < 2; i++)
     for (j = i; j < 2; j++) 
-- 
2.43.0


From f85656d13cecb6c847c7d7c2bab74757018022fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 14/30] fix: AddConstantVar flagged another variable when its
 variable exists already on a restart

---
 src/main/main/variables.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/main/variables.c b/src/main/main/variables.c
index 913340e..851fad5 100644
--- a/src/main/main/variables.c
+++ b/src/main/main/variables.c
@@ -104,8 +104,11 @@ void AddVar(char *name, char *tensorindices, char *description)
 /* add constant variable to data base */
 void AddConstantVar(char *name, char *tensorindices, char *description)
 {
+  int n = nvdb;
+
   AddVar(name, tensorindices, description);
-  VarNameSetConstantFlag(vdb[nvdb-1].name);
+  /* on a restart the variable may be there already */
+  if(nvdb > n) VarNameSetConstantFlag(vdb[nvdb-1].name);
 }
 
 /* add a Var if we have a grid already */
-- 
2.43.0


From 780dbdcd27ff403da7bcf03d40bcca9acce7ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 15/30] fix: loops over point lists read the point array of
 boxes without points

---
 src/main/MemoryMan/sgrid_MemoryMan_loops.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/main/MemoryMan/sgrid_MemoryMan_loops.h b/src/main/MemoryMan/sgrid_MemoryMan_loops.h
index 394f7bd..a566ddd 100644
--- a/src/main/MemoryMan/sgrid_MemoryMan_loops.h
+++ b/src/main/MemoryMan/sgrid_MemoryMan_loops.h
@@ -76,12 +76,14 @@
 /* loop over all points ijk in all boxes in list pointlist */
 #define forPointList(pointlist, boxindx, pi , ijk) \
   forallboxes(pointlist->grid,boxindx) \
-    for(pi = 0 , ijk = pointlist->point[boxindx][pi]; \
-        pi < pointlist->npoints[boxindx]; \
-        pi++, ijk = pointlist->point[boxindx][pi-(pi==pointlist->npoints[boxindx])])
+    for(pi = 0; \
+        (pi < pointlist->npoints[boxindx]) && \
+        ((ijk = pointlist->point[boxindx][pi]), 1); \
+        pi++)
 
 /* loop over all points ijk in all boxes in list pointlist */
 #define forPointList_inbox(pointlist, box, pi , ijk) \
-  for(pi = 0 , ijk = pointlist->point[box->b][pi]; \
-        pi < pointlist->npoints[box->b]; \
-        pi++, ijk = pointlist->point[box->b][pi-(pi==pointlist->npoints[box->b])])
+  for(pi = 0; \
+        (pi < pointlist->npoints[box->b]) && \
+        ((ijk = pointlist->point[box->b][pi]), 1); \
+        pi++)
-- 
2.43.0


From 77a554ba2051f1ec66c945679d7f2921a35a6984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 16/30] fix: checkpoints store the time with all its digits

---
 src/utility/checkpoint/checkpoint_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/checkpoint_write.c b/src/utility/checkpoint/checkpoint_write.c
index 300b044..8e3282f 100644
--- a/src/utility/checkpoint/checkpoint_write.c
+++ b/src/utility/checkpoint/checkpoint_write.c
@@ -81,7 +81,7 @@ void checkpoint_write_local(tGrid *g, FILE *fp)
   /* write one line text header, check with "head -1 checkpoint.0" */
   fprintf(fp, "$BEGIN_checkpoint_header:  ");
   fprintf(fp, "$bmin = %d , $bmax = %d , ", 0, g->nboxes-1);
-  fprintf(fp, "$time = %g , ", g->time);
+  fprintf(fp, "$time = %.17g , ", g->time);
   fprintf(fp, "$iteration = %d\n", g->iteration);
   fprintf(fp, "$END_checkpoint_header\n\n");
 
-- 
2.43.0


From 55334d158df5f6dd8ef4cc7cf1b5fa9fbd234b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 17/30] fix: a checkpoint that cannot be written completely
 must not replace the old one

---
 src/utility/checkpoint/checkpoint_write.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint_write.c b/src/utility/checkpoint/checkpoint_write.c
index 8e3282f..671c732 100644
--- a/src/utility/checkpoint/checkpoint_write.c
+++ b/src/utility/checkpoint/checkpoint_write.c
@@ -23,7 +23,7 @@ void checkpoint_write(tGrid *g)
   char *filename = checkpoint_filename("", "w");
   char *filename_new;
   FILE *fp;
-  int i;
+  int i, failed;
 
   /* name of backup file */
   filename_new = cmalloc(strlen(filename) + 20);
@@ -43,8 +43,10 @@ void checkpoint_write(tGrid *g)
       prTimeIn_s("WallTime: ");
       checkpoint_write_local(g, fp);
 
-      /* done */
-      fclose(fp);
+      /* done, but keep the old file if anything could not be written */
+      failed = ferror(fp);
+      if(fclose(fp)!=0) failed = 1;
+      if(failed) errorexits("failed writing %s", filename_new);
     }
     /* everyone please wait here */
     sgrid_mpi_barrier();
-- 
2.43.0


From 04c60902c39b539194f114f265984d3e9af409c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 18/30] fix: do not restart from an incomplete checkpoint file

---
 src/utility/checkpoint/checkpoint_read.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/utility/checkpoint/checkpoint_read.c b/src/utility/checkpoint/checkpoint_read.c
index 4bdf915..835fdaa 100644
--- a/src/utility/checkpoint/checkpoint_read.c
+++ b/src/utility/checkpoint/checkpoint_read.c
@@ -80,6 +80,20 @@ void striptrailingnewline(char *s)
 }
 
 
+/* stop if a checkpoint file does not end with the mark that is written last */
+void checkpoint_check_end_of_file(FILE *fp)
+{
+  char str[100];
+  int n;
+
+  fseek(fp, -16L, SEEK_END);
+  n = fread(str, sizeof(char), 16, fp);
+  if(n!=16 || strncmp(str, "$END_variables\n\n", 16)!=0)
+    errorexit("checkpoint file is incomplete!");
+  rewind(fp);
+}
+
+
 /* read pars, iteration numbers and times from checkpoint file on 
    one processor */
 void checkpoint_read_ParsAndIterations_local(tGrid *grid, FILE *fp)
@@ -95,6 +109,8 @@ void checkpoint_read_ParsAndIterations_local(tGrid *grid, FILE *fp)
     prTimeIn_s("WallTime: ");
   }
 
+  checkpoint_check_end_of_file(fp);
+
   /* read one line text header, check with "head -1 checkpoint.0" */
   if(fgotonext(fp, "$BEGIN_checkpoint_header:") == EOF)
     errorexit("$BEGIN_checkpoint_header: is missing!");
-- 
2.43.0


From 74d7d485035ce5f5d0d5fb35d71a296d04fae2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 19/30] fix: checkpoint_dt smaller than the time step must not
 divide by zero

---
 src/utility/checkpoint/checkpoint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility/checkpoint/checkpoint.c b/src/utility/checkpoint/checkpoint.c
index 23454ad..9b1e6c0 100644
--- a/src/utility/checkpoint/checkpoint.c
+++ b/src/utility/checkpoint/checkpoint.c
@@ -74,6 +74,7 @@ int checkpoint(tGrid *grid)
     di = dt/grid->dt + dequaleps;
   else
     di = Geti("checkpoint_di");
+  if(di < 1) di = 1; /* e.g. if checkpoint_dt < grid->dt */
   if(pr) printf("di = %d\n", di);
   
   /* check whether it is time to write a checkpoint */
-- 
2.43.0


From a3f117421fd632d4dcb630899c41edf27a024cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:19 +0000
Subject: [PATCH 20/30] fix: an interrupted copy of the previous output must
 not be taken for a complete one on the next start

---
 src/utility/checkpoint/checkpoint.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/checkpoint.c b/src/utility/checkpoint/checkpoint.c
index 9b1e6c0..f908297 100644
--- a/src/utility/checkpoint/checkpoint.c
+++ b/src/utility/checkpoint/checkpoint.c
@@ -228,7 +228,16 @@ void checkpoint_copy_output(void)
        !GetvLax("sgrid_options", "--keep_previous") )
       system3("mv", previous, current);
     else
-      system3("cp -pr", previous, current);
+    {
+      /* make complete copy before we use the name of the output directory,
+         so that we never leave behind an incomplete output directory */
+      char *incomplete = cmalloc(strlen(current) + strlen("_incomplete") + 1);
+      sprintf(incomplete, "%s%s", current, "_incomplete");
+      system2("rm -rf", incomplete);
+      system3("cp -pr", previous, incomplete);
+      system3("mv", incomplete, current);
+      free(incomplete);
+    }
   }
   /* wait here to make sure proc0 has copied all there is */
   sgrid_mpi_barrier();
-- 
2.43.0


From d150409092a8fcad36d91b615bff06d6a577ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 21/30] fix: evolve has no earlier time level after a restart
 at iteration 0

---
 src/utility/evolve/evolve.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/evolve/evolve.c b/src/utility/evolve/evolve.c
index 9c72799..5689b2b 100644
--- a/src/utility/evolve/evolve.c
+++ b/src/utility/evolve/evolve.c
@@ -80,8 +80,9 @@ int evolve(tGrid *grid)
   u_c->grid = grid;
   u_c->time = grid->time;
 
-  /* add new variables before first time step */
-  if (grid->iteration == 0) {
+  /* add new variables before first time step,
+     this may not be iteration 0 if a restart has already happened */
+  if (grid->iteration == 0 || !u_p) {
     printf("Adding variables for evolution:\n");
 
     /* add additional variables */
-- 
2.43.0


From ef3d3afd17c0e1555f3a5bcd91490b07bda56c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 22/30] fix: Runge-Kutta methods with more stages or other
 variables in a later run of a parameter sweep

---
 src/utility/evolve/rk.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/evolve/rk.c b/src/utility/evolve/rk.c
index 60a8fb8..a6defaa 100644
--- a/src/utility/evolve/rk.c
+++ b/src/utility/evolve/rk.c
@@ -251,7 +251,8 @@ void evolve_rk(tGrid *grid)
 
   /* add auxiliary fields to data base, no storage yet 
      incrementing second letter in s gives _r, _s, _t, ... */
-  if (firstcall) {
+  if (firstcall || grid->iteration == 0) {
+    /* the method or the variables may differ from those of an earlier run */
     firstcall = 0;
     for (i = 0; i < rk->nstages; i++, s[1]++) 
       u_k[i] = AddDuplicate(u_c, s);
-- 
2.43.0


From b9055ea805b7b824fc8e1647459d60a0dcbcdba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 23/30] fix: icn used the old time in its later iterations

---
 src/utility/evolve/icn.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/evolve/icn.c b/src/utility/evolve/icn.c
index 13a1861..1988d35 100644
--- a/src/utility/evolve/icn.c
+++ b/src/utility/evolve/icn.c
@@ -25,6 +25,7 @@ void evolve_icn(tGrid *grid)
 
     /* u_c = u_p + k F(u_q) */
     evolve_rhs(u_c, u_p, dt, u_q);
+    u_c->time = u_p->time + dt;
 
     /* set algebraic BCs for u_c, and any other stuff needed */
     if(evolve_algebraicConditions) evolve_algebraicConditions(u_c, u_p);
@@ -50,6 +51,7 @@ void evolve_euler(tGrid *grid)
 
   /* u_c = u_p + k F(u_p) */  
   evolve_rhs(u_c, u_p, dt, u_p);
+  u_c->time = u_p->time + dt;
 
   /* set algebraic BCs for u_c, and any other stuff needed */
   if(evolve_algebraicConditions) evolve_algebraicConditions(u_c, u_p);
-- 
2.43.0


From 6f0c2bfa7092efc492e1c066945af38ed358e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 24/30] fix: constant and excision boundary conditions with
 time integrators that use time derivatives

---
 src/utility/boundary/boundary.c       | 30 ++++++++++++++++++++++-----
 src/utility/boundary/excision.c       |  7 +++++--
 src/utility/boundary/sgrid_boundary.h |  2 +-
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/utility/boundary/boundary.c b/src/utility/boundary/boundary.c
index 987c7e8..c940872 100644
--- a/src/utility/boundary/boundary.c
+++ b/src/utility/boundary/boundary.c
@@ -250,6 +250,19 @@ int free_BoundaryPointLists(tGrid *grid)
 }
 
 
+/* check if var i, or the var without an ending like "_r" from rk4, is
+   listed in par */
+static int boundary_par_lists_var(char *par, int i)
+{
+  char str[1000];
+  int slen;
+
+  snprintf(str, 999, "%s", VarName(i));  slen=strlen(str);
+  if(Getv(par, str)) return 1;
+  if(slen>=3 && str[slen-2]=='_') { str[slen-2]=0;  return Getv(par, str); }
+  return 0;
+}
+
 /* apply all active boundary conditions after a standard evolution step */
 void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
 {
@@ -300,8 +313,11 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
   {
     /* for all variables */
     for (j = 0; j < unew->n; j++)
-      set_boundary_constant(constantBoundaryPointList,
-                            unew->index[j], upre->index[j]);
+      if(c != 0.0)
+        set_boundary_constant(constantBoundaryPointList,
+                              unew->index[j], upre->index[j]);
+      else /* unew is the time derivative */
+        set_boundary_value(constantBoundaryPointList, unew->index[j], 0.0);
   }
 
   /* simple excision boundary condition */
@@ -309,7 +325,7 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
   {
     /* for all variables */
     for (j = 0; j < unew->n; j++)
-      set_boundary_simpleExcision(grid, unew->index[j], upre->index[j]);
+      set_boundary_simpleExcision(grid, unew->index[j], upre->index[j], c);
   }
 
   /* selectedconstantExcision excision boundary condition */
@@ -319,9 +335,13 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
     for (j = 0; j < unew->n; j++)
     {
       i = unew->index[j];
-      if (Getv("boundary_selectedExcisionVars", VarName(i)))
+      if (!boundary_par_lists_var("boundary_selectedExcisionVars", i))
+        continue;
+      if(c != 0.0)
         set_boundary_constant(selectedBoundaryPointList,
                               unew->index[j], upre->index[j]);
+      else /* unew is the time derivative */
+        set_boundary_value(selectedBoundaryPointList, unew->index[j], 0.0);
     }
   }
 
@@ -341,7 +361,7 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
     for (j = 0; j < unew->n; j++)
     {
       i = unew->index[j];
-      if (Getv("boundary_selectedExcisionVars", VarName(i)))
+      if (boundary_par_lists_var("boundary_selectedExcisionVars", i))
         set_boundary_VonNeumannExcision(selectedBoundaryPointList,
                                         unew->index[j]);
     }
diff --git a/src/utility/boundary/excision.c b/src/utility/boundary/excision.c
index b84824d..eec4c9d 100644
--- a/src/utility/boundary/excision.c
+++ b/src/utility/boundary/excision.c
@@ -7,7 +7,7 @@
 
 
 /* set simple excision boundary for one variable */
-void set_boundary_simpleExcision(tGrid *grid, int unew, int upre)
+void set_boundary_simpleExcision(tGrid *grid, int unew, int upre, double c)
 {
   int bi, pi, ijk;
   
@@ -19,7 +19,10 @@ void set_boundary_simpleExcision(tGrid *grid, int unew, int upre)
 
     /* NOTE: This works only if excsion boundary is at i=0: */
     forPointList_inbox(ExcisionBoundaryPointList, box, pi , ijk)
-      varnew[ijk] =  varpre[ijk] + varnew[ijk+1] - varpre[ijk+1];
+      if(c != 0.0)
+        varnew[ijk] =  varpre[ijk] + varnew[ijk+1] - varpre[ijk+1];
+      else /* varnew is the time derivative */
+        varnew[ijk] =  varnew[ijk+1];
   }
 }
 
diff --git a/src/utility/boundary/sgrid_boundary.h b/src/utility/boundary/sgrid_boundary.h
index c92d867..4631a69 100644
--- a/src/utility/boundary/sgrid_boundary.h
+++ b/src/utility/boundary/sgrid_boundary.h
@@ -13,7 +13,7 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur);
 void set_boundary_radiative(tGrid *grid, 
 			    int unew, int upre, double c, int ucur,
 			    double var0, double v);
-void set_boundary_simpleExcision(tGrid *grid, int unew, int upre);
+void set_boundary_simpleExcision(tGrid *grid, int unew, int upre, double c);
 void set_boundary_constant(tPointList *PL, int unew, int upre);
 void set_boundary_value(tPointList *PL, int ui, double value);
 void set_boundary_normalderiv_leftBound(tPointList *PL, int direc, int ui, 
-- 
2.43.0


From 930b6b08eeae2bd709d2a074f20c4b751f5562c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 25/30] fix: bicgstab reports breakdown when its first half
 step converges, and leaks variables if there is nothing to do

---
 src/utility/GridIterators/bicgstab.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utility/GridIterators/bicgstab.c b/src/utility/GridIterators/bicgstab.c
index e8cc0ae..1a1acd7 100644
--- a/src/utility/GridIterators/bicgstab.c
+++ b/src/utility/GridIterators/bicgstab.c
@@ -21,6 +21,7 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
   double rho = 0, rho1 = 1, rhotol = 1e-50;
   double omega = 0, omegatol = 1e-50;
   int i, ii, j;
+  int solved = 0;
   int pr = Getv("GridIterators_verbose", "yes");
 
   /* temporary storage */
@@ -57,10 +58,10 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
     }
   *normres = norm2(r);
   if (pr) printf("bicgstab: %5d  %10.3e\n", 0, *normres);
-  if (*normres <= tol) return 0;
+  if (*normres <= tol) solved = 1; /* no iterations needed */
 
   /* cgs iteration */
-  for (ii = 0; ii < itmax; ii++) {
+  for (ii = 0; ii < itmax && !solved; ii++) {
     rho = dot(rt, r);
     if (fabs(rho) < rhotol) break;
 
@@ -154,6 +155,12 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
   VLDisableFree(t);
   VLDisableFree(v);
 
+  /* initial x was good enough */
+  if (solved) return 0;
+
+  /* success at the early check, where omega may still be zero */
+  if (*normres <= tol) return ii+1;
+
   /* iteration failed */
   if (ii > itmax) return -1;
 
-- 
2.43.0


From 5b92ecd3a23a160bd8f284e337520d5f066171b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 26/30] fix: SOR preconditioner keeps an old vector if the
 right hand side is zero; free memory if nothing is to be done

---
 src/utility/GridIterators/SOR.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utility/GridIterators/SOR.c b/src/utility/GridIterators/SOR.c
index 7d67674..63d1467 100644
--- a/src/utility/GridIterators/SOR.c
+++ b/src/utility/GridIterators/SOR.c
@@ -64,7 +64,7 @@ int matrix_SOR(tSparseVector **Aline, int nlines,
            nlines, omega, itmax, tol);
     printf("matrix_SOR: step %d  residual=%g\n", 0, *normres); fflush(stdout);
   }
-  if(*normres <= tol) return 0;
+  if(*normres <= tol) { free(f); return 0; }
 
   /* start iterations */
   for(it=1; it<=itmax; it++)
@@ -225,6 +225,11 @@ void SOR_Preconditioner_from_SOR_Aline(tVarList *vlx, tVarList *vlb,
     /* solve A x = b with SOR */
     INFO=matrix_SOR(SOR_Aline, SOR_nlines, x, b, omega, itmax, tol, &res);
   }
+  else
+  {
+    int i;
+    for(i=0; i<SOR_nlines; i++) x[i] = 0.0;
+  }
 
   /* set vlx = x */
   copy_array_into_vl(x, vlx);
-- 
2.43.0


From 054b2a7ecc776a11c9506d495b5c42c5d15a86af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 27/30] fix: Newton recomputes the residual before it tries
 another linear solver

---
 src/utility/GridIterators/Newton.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utility/GridIterators/Newton.c b/src/utility/GridIterators/Newton.c
index 44787e9..02c5b2b 100644
--- a/src/utility/GridIterators/Newton.c
+++ b/src/utility/GridIterators/Newton.c
@@ -168,6 +168,10 @@ int Newton(
                    p0, linSolverPos);
             linSolverOK=0;
             linSolver1 = get_linSolver_by_name(word);
+            /* vlu and vlFu may have changed: get residual of current vlu */
+            Fu(vlFu, vlu, vlc1, vlc2);
+            res = norm2(vlFu);
+            *normres = res;
           }
           free(word);
         }
-- 
2.43.0


From ad1ef6b65c33b12dbe84b0f547d7880e80dd9c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 28/30] fix: output lists with leading or several blanks no
 longer output parts of words

---
 src/utility/output/output.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/utility/output/output.c b/src/utility/output/output.c
index 4e3a4a7..ccfe261 100644
--- a/src/utility/output/output.c
+++ b/src/utility/output/output.c
@@ -279,10 +279,8 @@ int write_grid(tGrid *grid)
       int start=0;
       int vi;
 
-      while(sscanf(ou[0]+start, "%s", str)==1)
+      while((start=sscan_word_at_p(ou[0], start, str))!=EOF)
       {
-        start += strlen(str);
-        if(ou[0][start]==' ') start++;
   
         /* check if str has an index that exists */
         vi = IndLax(str);
@@ -318,10 +316,8 @@ int write_grid(tGrid *grid)
       int vi;
 
       //printf("1dout ... |%s|\n", ou[1]);
-      while(sscanf(ou[1]+start, "%s", str)==1)
+      while((start=sscan_word_at_p(ou[1], start, str))!=EOF)
       {
-        start += strlen(str);
-        if(ou[1][start]==' ') start++;
         //printf("1dout |%s|\n",str);
   
         /* check if str has an that index exists */
@@ -358,10 +354,8 @@ int write_grid(tGrid *grid)
       int vi;
 
       //printf("2dout ... |%s|\n", ou[2]);
-      while(sscanf(ou[2]+start, "%s", str)==1)
+      while((start=sscan_word_at_p(ou[2], start, str))!=EOF)
       {
-        start += strlen(str);
-        if(ou[2][start]==' ') start++;
         //printf("2dout |%s|\n", str);
         
         /* check if str has an index that exists */
@@ -398,10 +392,8 @@ int write_grid(tGrid *grid)
       int vi;
 
       //printf("3dout ... |%s|\n", ou[3]);
-      while(sscanf(ou[3]+start, "%s", str)==1)
+      while((start=sscan_word_at_p(ou[3], start, str))!=EOF)
       {
-        start += strlen(str);
-        if(ou[3][start]==' ') start++;
         //printf("3dout |%s|\n", str);
         
         /* check if str has an index that exists */
-- 
2.43.0


From b208502e7bbca92c8d5c023a708d3592241a0b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 29/30] fix: binary float points in vtk output on big endian
 machines

---
 src/utility/output/VTK_out.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utility/output/VTK_out.c b/src/utility/output/VTK_out.c
index a49129b..c291902 100644
--- a/src/utility/output/VTK_out.c
+++ b/src/utility/output/VTK_out.c
@@ -168,9 +168,9 @@ void write_raw_vtk_points(FILE *fp, double *px, double *py, double *pz,
       {
         for (i = 0; i < n; i++)
         {
-          const double xfloat = px[stride*i+offset];
-          const double yfloat = py[stride*i+offset];
-          const double zfloat = pz[stride*i+offset];
+          const float xfloat = px[stride*i+offset];
+          const float yfloat = py[stride*i+offset];
+          const float zfloat = pz[stride*i+offset];
           fwrite(&xfloat, sizeof(float), 1, fp);
           fwrite(&yfloat, sizeof(float), 1, fp);
           fwrite(&zfloat, sizeof(float), 1, fp);
-- 
2.43.0


From c68d8019c1d9392f52814162539bd08560285928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:07 +0000
Subject: [PATCH 30/30] fix: Poisson3: linearize Chi*Chi*Psizz with respect to
 Chi correctly

---
 src/physics/Poisson3/Poisson3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/Poisson3/Poisson3.c b/src/physics/Poisson3/Poisson3.c
index c154540..79081d6 100644
--- a/src/physics/Poisson3/Poisson3.c
+++ b/src/physics/Poisson3/Poisson3.c
@@ -416,7 +416,7 @@ void J_Poisson3(tVarList *VLJlu, tVarList *VLlu,
     forallpoints(box, i)
     {
       JlPsi[i] = Chi[i]*lPsixx[i] + lChi[i]*Psixx[i]  +  lPsiyy[i]  +
-                 Chi[i]*Chi[i]*lPsizz[i] + 2.0*lChi[i]*Psizz[i];
+                 Chi[i]*Chi[i]*lPsizz[i] + 2.0*Chi[i]*lChi[i]*Psizz[i];
       JlChi[i] = lChixx[i] + Psix[i]*lChiyy[i] + lPsix[i]*Chiyy[i] + lChizz[i];
     }
   }
-- 
2.43.0

