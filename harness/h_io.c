/* byte order of binary files, copies of files */
#include "sgrid.h"
#include "vh.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
size_t SGRID_fwrite_little(const void *, size_t, size_t, FILE *); size_t SGRID_fread_little(void *, size_t, size_t, FILE *);
size_t SGRID_fwrite_big(const void *, size_t, size_t, FILE *); size_t SGRID_fread_big(void *, size_t, size_t, FILE *);
size_t fwrite_double_little(const double *buf, size_t nmemb, FILE *fp); size_t fread_double_little(double *buf, size_t nmemb, FILE *fp);
int copy_file(char *fname, char *newname); int copy_file_into_dir(char *fname, char *dir);
void h_endian(int *c)
{ unsigned char b[64], f[64], r[64]; int size=c[0], n=c[1], big=c[2], pre=c[3], i, j, m=size*n, k, nr=c[4]; FILE *fp;
  for(i=0;i<m;i++) b[i]=in_i(i,0,255);
  for(i=0;i<64;i++) r[i]=7;
  fp=fopen("t.bin","wb"); for(i=0;i<pre;i++) fputc(i+1,fp);
  k= big ? SGRID_fwrite_big(b,size,n,fp) : SGRID_fwrite_little(b,size,n,fp);
  fputc(99,fp); fclose(fp);
  v_true("count_written", k==n);
  fp=fopen("t.bin","rb"); for(i=0;i<pre;i++) v_true("before", fgetc(fp)==i+1);
  for(i=0;i<m;i++) f[i]=fgetc(fp);
  v_true("after", fgetc(fp)==99); v_true("end_of_file", fgetc(fp)==EOF); fclose(fp);
  /* the file holds every element in the stated order of its bytes (this machine is little endian) */
  for(i=0;i<n;i++) for(j=0;j<size;j++) v_true("byte_order", f[size*i+j]==b[size*i+(big ? size-1-j : j)]);
  fp=fopen("t.bin","rb"); for(i=0;i<pre;i++) fgetc(fp);
  k= big ? SGRID_fread_big(r,size,nr,fp) : SGRID_fread_little(r,size,nr,fp);
  if(nr<=n)
  { v_true("count_read", k==nr); v_true("position_after_read", fgetc(fp)==(nr<n ? f[size*nr] : 99));
    for(i=0;i<size*nr;i++) v_true("read_is_written", r[i]==b[i]);
    for(;i<64;i++) v_true("nothing_else_read", r[i]==7); }
  else
  { v_true("short_count", k<nr); for(i=0;i<m;i++) v_true("read_is_written", r[i]==b[i]); }
  fclose(fp);
  v_reach("end"); }
void h_dbl(int *c)
{ double x[6], y[6]; int n=c[0], i, k; FILE *fp;
  for(i=0;i<n;i++) x[i]=in_d(i,-1e30,1e30); for(i=0;i<6;i++) y[i]=3;
  fp=fopen("t.bin","wb"); k=fwrite_double_little(x,n,fp); fclose(fp); v_true("count_written", k==n);
  fp=fopen("t.bin","rb"); k=fread_double_little(y,n,fp); v_true("count_read", k==n); v_true("end_of_file", fgetc(fp)==EOF); fclose(fp);
  for(i=0;i<n;i++) v_true("double_exact", y[i]==x[i]); for(;i<6;i++) v_true("nothing_else_read", y[i]==3);
  v_reach("end"); }
void h_copy(int *c)
{ unsigned char b[12]; int n=in_i(0,0,c[0]), i, ch; FILE *fp; char *dst= c[1] ? "cp.bin" : "./t.bin2";
  for(i=0;i<c[0];i++) { b[i]=in_i(1+i,0,255); }
  fp=fopen("src.bin","wb"); for(i=0;i<n;i++) fputc(b[i],fp); fclose(fp);
  fp=fopen(dst,"wb"); for(i=0;i<9;i++) fputc(i,fp); fclose(fp);
  copy_file("src.bin",dst);
  fp=fopen(dst,"rb"); for(i=0;i<n;i++) v_true("same_byte", fgetc(fp)==b[i]);
  v_true("same_length", fgetc(fp)==EOF); fclose(fp);
  fp=fopen("src.bin","rb"); for(i=0;i<n;i++) v_true("source_unchanged", fgetc(fp)==b[i]); v_true("source_length", fgetc(fp)==EOF); fclose(fp);
  v_reach("end"); }
