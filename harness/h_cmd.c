/* command line, parameter iteration, utilities */
#include "sgrid.h"
#include "main.h"
#include "vh.h"
#include <stdlib.h>
#include <string.h>
extern int npdbmax, npdb, pdb_iStart; extern tParameter *pdb;
int read_command_line(int argc, char **argv);
int parse_command_line_options(void);
int iterate_parameters(int next);
int get_par_from_str(const char *str, char *name, const char *delim, char *value, int n);
void trim_whitespace(char *str);
int construct_argv(char *str, char ***argv);
static int same(const char *a, const char *b) { int i=0; while(a[i] && a[i]==b[i]) i++; return a[i]==b[i]; }
static int len(const char *a) { int i=0; while(a[i]) i++; return i; }
static char *cat(const char *a, const char *b)
{ char *r=malloc(len(a)+len(b)+1); int i=0; while(*a) r[i++]=*a++; while(*b) r[i++]=*b++; r[i]=0; return r; }
static char *num(const char *a, int n) { char *r=malloc(len(a)+2); int i=0; while(*a) r[i++]=*a++; r[i++]='0'+n; r[i]=0; return r; }
/* stand-ins: record what would be done to files */
static char *cmd[20][3]; static int ncmd;
static char *dup1(const char *s) { return cat(s,""); }
int system3(char *a, char *b, char *c) { cmd[ncmd][0]=dup1(a); cmd[ncmd][1]=dup1(b); cmd[ncmd][2]=dup1(c); ncmd++; return 0; }
int system2(char *a, char *b) { return system3(a,b,""); }

/* parameter file and output directory names for any name that has or has not the ending .par */
static void do_cmd(void *a) { void **p=a; read_command_line(*(int*)p[0],p[1]); }
void h_parfile(int *c)
{ static char *tpl[6]={"a.par","ab","x.par.par","a.parb","dir.par/b",".par"}; char *t=tpl[c[0]], *s=malloc(20), *e, *argv[3]={"sgrid",0,0}; int i, n, end;
  npdbmax=9;
  for(i=0;t[i];i++) s[i]=t[i]+in_i(i,0,1); s[i]=0; n=i;
  argv[1]=s;
  end = n>=5 && s[n-4]=='.' && s[n-3]=='p' && s[n-2]=='a' && s[n-1]=='r';
  e= end ? dup1(s) : cat(s,".par");
  read_command_line(2,argv);
  v_true("parameter_file_name", same(Gets("parameterfile"),e));
  e[len(e)-4]=0;
  v_true("output_directory_name", same(Gets("outdir"),e));
  v_true("no_options", GetsLax("sgrid_options")==0 && GetsLax("sgrid_arg2")==0);
  v_reach("end"); }
/* arguments and options in any order */
void h_args(int *c)
{ char *argv[9]; int i, n=c[0], na=0, kind, bad=0, nc=9, fatal; char *opt=0, *arg[9]; void *p[2];
  npdbmax=12;
  argv[0]="sgrid"; argv[1]="run.par";
  for(i=0;i<n;i++)
  { char *s=malloc(4+c[1]); int k=0, j;
    kind=in_i(10*i,0,3);
    if(kind==1 || kind==2 || kind==3) s[k++]='-';
    if(kind==1) s[k++]='-';
    if(kind!=3) { for(j=0;j<c[1];j++) s[k++]='x'; s[k++]='a'+in_i(10*i+1,0,7); }
    s[k]=0; argv[2+i]=s;
    if(kind>1) bad=1;
    else if(kind==1) opt= opt ? cat(cat(opt," "),s) : s;
    else arg[na++]=s; }
  n+=2; p[0]=&n; p[1]=argv;
  fatal=v_call_exits(do_cmd,p);
  v_true("bad_options_are_fatal", fatal==bad);
  if(!fatal)
  { for(i=0;i<na;i++) v_true("argument", GetsLax(num("sgrid_arg",i+2))!=0 && same(Gets(num("sgrid_arg",i+2)),arg[i]));
    v_true("no_more_arguments", GetsLax(num("sgrid_arg",na+2))==0);
    if(opt) v_true("options", same(Gets("sgrid_options"),opt)); else v_true("no_options", GetsLax("sgrid_options")==0);
    v_true("nothing_else", GetnParameters()==2+na+(opt!=0)); }
  v_reach("end"); }
/* --modify-par */
void h_modify(int *c)
{ char *argv[6], *val[3], nm[3][3]; int i, n=c[0], argc=2, j, ex=in_i(90,0,1);
  npdbmax=12;
  argv[0]="sgrid"; argv[1]="run.par";
  if(c[1]&1) argv[argc++]="--keep_previous";
  for(i=0;i<n;i++)
  { char *s, *v=malloc(6); int k=0, nv=in_i(10*i,0,c[2]);
    nm[i][0]='a'+in_i(10*i+1,0,2); nm[i][1]='q'; nm[i][2]=0;
    for(j=0;j<c[2];j++) { int ch=in_i(10*i+2+j,0,5); if(j>=nv) break; v[j]= c[3]==j+1 ? ' ' : c[4]==j+1 ? '=' : c[5]==j+1 ? '-' : 'a'+ch; }
    v[j]=0; val[i]=v;
    s=cat(cat(cat("--modify-par:",nm[i]),"="),v);
    argv[argc++]=s; }
  if(c[1]&2) argv[argc++]="--other";
  read_command_line(argc,argv);
  if(ex) AddPar("aq","file","d");
  AddPar("zz","unchanged","d");
  parse_command_line_options();
  for(i=0;i<n;i++)
  { for(j=i+1;j<n;j++) if(same(nm[i],nm[j])) break;
    if(j==n) v_true("modified_value", GetsLax(nm[i])!=0 && same(Gets(nm[i]),val[i])); }
  v_true("other_unchanged", same(Gets("zz"),"unchanged"));
  if(ex) { for(i=0;i<n;i++) if(same(nm[i],"aq")) break; if(i==n) v_true("not_named_unchanged", same(Gets("aq"),"file")); }
  v_reach("end"); }
/* iterate_parameters: k-th pass uses the k-th value of every list */
void h_iter(int *c)
{ int nl=c[0], nv=c[1], i, k, on=in_i(90,0,1); char *list[2], *val[2][4], *out; static char *nm[2]={"s","m"};
  npdbmax=12; pdb=0; npdb=0;
  AddPar("parameterfile","dir/run.par","d"); AddPar("outdir","dir/run","d");
  AddPar("iterate_parameters",on ? "yes" : "no","d");
  for(i=0;i<nl;i++)
  { list[i]=nm[i];
    for(k=0;k<nv;k++) { char *v=malloc(3); v[0]='a'+in_i(10*i+2*k,0,7); v[1]=0; val[i][k]=v; list[i]=cat(cat(list[i]," "),v); }
    AddPar(num("iterate_parameter",i+1),list[i],"d"); AddPar(nm[i],"start","d"); }
  AddPar("x","fixed","d");
  iterate_parameters(0);
  if(!on)
  { v_true("single_pass", iterate_parameters(1)==1); v_true("then_stop", iterate_parameters(1)==0);
    v_true("nothing_changed", same(Gets("s"),"start") && same(Gets("outdir"),"dir/run") && ncmd==0);
    v_reach("end"); return; }
  for(k=0;k<nv;k++)
  { ncmd=0;
    v_true("another_pass", iterate_parameters(1)!=0);
    out="dir/run";
    for(i=0;i<nl;i++) { v_true("value_of_this_pass", same(Gets(nm[i]),val[i][k])); out=cat(cat(out,"_"),val[i][k]); }
    v_true("outdir_of_this_pass", same(Gets("outdir"),out));
    v_true("outdir_rotated", ncmd==3 && same(cmd[0][0],"rm -rf") && same(cmd[0][1],cat(out,"_previous")) && same(cmd[1][0],"mv") && same(cmd[1][1],out) && same(cmd[1][2],cat(out,"_previous"))
      && same(cmd[2][0],"mkdir") && same(cmd[2][1],out));
    v_true("others_unchanged", same(Gets("x"),"fixed")); }
  ncmd=0;
  v_true("stops_after_last", iterate_parameters(1)==0); v_true("nothing_done_after_last", ncmd==0);
  if(c[2]) { iterate_parameters(0); v_true("starts_again", iterate_parameters(1)!=0); v_true("first_again", same(Gets("s"),val[0][0])); }
  v_reach("end"); }
/* utilities */
void h_trim(int *c)
{ char s[8], t[8]; int n=c[0], i, a, b, k;
  for(i=0;i<n;i++) { int ch=in_i(i,0,2); s[i]= ch==0 ? ' ' : ch==1 ? 'a' : '\t'; t[i]=s[i]; } s[n]=t[n]=0;
  trim_whitespace(s);
  for(a=0;a<n && t[a]!='a';a++); for(b=n;b>a && t[b-1]!='a';b--);
  for(k=1,i=a;i<b;i++) if(s[i-a]!=t[i]) k=0;
  v_true("trimmed", k && s[b-a]==0);
  v_reach("end"); }
void h_parstr(int *c)
{ char s[8], nam[9], val[9]; int n=c[0], i, d, r, a, b, k=1;
  for(i=0;i<n;i++) { int ch=in_i(i,0,2); s[i]= ch==0 ? ' ' : ch==1 ? 'a' : '='; } s[n]=0;
  for(d=0;d<n && s[d]!='=';d++);
  for(i=d+1;i<n;i++) v_assume(s[i]!='=');            /* at most one = */
  v_assume(d<n ? d>0 : 1);
  nam[0]=val[0]='?';
  r=get_par_from_str(s,nam,"=",val,8);
  v_true("contains_delimiter", r==(d<n));
  if(r)
  { for(a=0;a<d && s[a]==' ';a++); for(b=d;b>a && s[b-1]==' ';b--);
    for(i=a;i<b;i++) if(nam[i-a]!=s[i]) k=0;
    v_true("name_trimmed", k && nam[b-a]==0);
    for(a=d+1;a<n && s[a]==' ';a++); for(b=n;b>a && s[b-1]==' ';b--);
    for(k=1,i=a;i<b;i++) if(val[i-a]!=s[i]) k=0;
    v_true("value_trimmed", k && val[b-a]==0); }
  v_reach("end"); }
void h_argv(int *c)
{ char s[10], t[10], **av; int n=c[0], i, k=0, cnt;
  for(i=0;i<n;i++) { int ch=in_i(i,0,2); s[i]=t[i]= ch==0 ? ' ' : 'a'+ch; } s[n]=t[n]=0;
  cnt=construct_argv(s,&av);
  for(i=0;i<n;)
  { int j;
    while(i<n && t[i]==' ') i++;
    if(i>=n) break;
    v_true("another_word", k<cnt);
    for(j=0;i<n && t[i]!=' ';j++,i++) v_true("word", av[k][j]==t[i]);
    v_true("word_end", av[k][j]==0); k++; }
  v_true("word_count", k==cnt); v_true("null_at_end", av[cnt]==0);
  v_reach("end"); }
double min_in_1d_array(double *f, int n, int *imin); double max_in_1d_array(double *f, int n, int *imax);
double min2_in_1d_array(double *f0, int n0, double *f1, int n1, int *ai, int *imin);
double max2_in_1d_array(double *f0, int n0, double *f1, int n1, int *ai, int *imin);
double min3_in_1d_array(double *f0, int n0, double *f1, int n1, double *f2, int n2, int *ai, int *imin);
double max3_in_1d_array(double *f0, int n0, double *f1, int n1, double *f2, int n2, int *ai, int *imin);
void h_minmax(int *c)
{ double f[3][3], m, s=c[1] ? -1 : 1; int na=c[0], n=c[2], i, j, a=0, k=-1;
  for(i=0;i<na;i++) for(j=0;j<n;j++) f[i][j]=in_d(3*i+j,-5,5);
  if(na==1) m= c[1] ? max_in_1d_array(f[0],n,&k) : min_in_1d_array(f[0],n,&k);
  else if(na==2) m= c[1] ? max2_in_1d_array(f[0],n,f[1],n,&a,&k) : min2_in_1d_array(f[0],n,f[1],n,&a,&k);
  else m= c[1] ? max3_in_1d_array(f[0],n,f[1],n,f[2],n,&a,&k) : min3_in_1d_array(f[0],n,f[1],n,f[2],n,&a,&k);
  v_true("index_in_range", a>=0 && a<na && k>=0 && k<n);
  v_check("value_at_index", m, f[a][k], 0);
  for(i=0;i<na;i++) for(j=0;j<n;j++) v_le("extremum", s*m, s*f[i][j], 0);
  v_check("min_max_of_two", c[1] ? max2(f[0][0],f[na-1][n-1]) : min2(f[0][0],f[na-1][n-1]), s*0.5*(s*(f[0][0]+f[na-1][n-1])-fabs(f[0][0]-f[na-1][n-1])), 1e-12);
  v_reach("end"); }
