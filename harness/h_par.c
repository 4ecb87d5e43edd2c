/* parameter data base: symbolic strings, symbolic sequences of operations */
#include "sgrid.h"
#include "main.h"
#include "vh.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
extern int npdbmax, npdb, pdb_iStart; extern tParameter *pdb;
void makeparameter(char *name, char *value, char *description);
void translatevalue(char **value);
/* any string of length 0..maxlen; each character is a blank (if bl) or one of nl letters from 'a' on */
static char *symstr(int k0, int minlen, int maxlen, int bl, int nl)
{ char *s=malloc(maxlen+1); int i, n=in_i(k0+49,minlen,maxlen);
  for(i=0;i<maxlen;i++) { if(i>=n) break;
    if(bl) { int c=in_i(k0+i,0,nl); s[i]=32+(c>0)*(64+c); } else s[i]='a'+in_i(k0+i,0,nl-1); }
  s[i]=0;
  return s; }
static int same(const char *a, const char *b) { int i=0; while(a[i] && a[i]==b[i]) i++; return a[i]==b[i]; }
static int len(const char *a) { int i=0; while(a[i]) i++; return i; }
/* reference: is word w one of the blank separated words of list l */
static int member(const char *l, const char *w)
{ int i=0;
  while(l[i])
  { int j=0; while(l[i]==' ') i++;
    if(!l[i]) break;
    while(w[j] && l[i+j]==w[j]) j++;
    if(!w[j] && (l[i+j]==' ' || !l[i+j])) return 1;
    while(l[i] && l[i]!=' ') i++; }
  return 0; }
static void getv_missing(void *a) { Getv("q",a); }
void h_getv(int *c)
{ char *l, *w; int r;
  npdbmax=3;
  l=symstr(0,0,c[0],1,c[2]); w=symstr(50,1,c[1],0,c[2]);
  AddPar("p",l,"d");
  r=Getv("p",w);
  v_true("getv_is_list_membership", r==member(l,w));
  v_true("getvlax_same", GetvLax("p",w)==r);
  v_true("lax_missing", GetvLax("q",w)==0);
  v_true("missing_is_fatal", v_call_exits(getv_missing,w));
  v_reach("end"); }
void h_append(int *c)
{ char *l, *w, *r; int n, i, ok, m;
  npdbmax=3;
  l=symstr(0,1,c[0],1,c[2]); w=symstr(50,1,c[1],0,c[2]);
  AddPar("p",l,"d");
  m=member(l,w); n=len(l);
  Appends("p",w); r=Gets("p");
  if(m) v_true("append_of_member_changes_nothing", same(r,l));
  else
  { for(ok=1,i=0;i<n;i++) if(r[i]!=l[i]) ok=0;
    v_true("append_keeps_list", ok);
    v_true("append_adds_word", r[n]==' ' && same(r+n+1,w)); }
  v_true("appended_is_member", Getv("p",w)==1);
  v_reach("end"); }
/* NextEntry lists the words of a single-blank separated list in order, then 0, then starts again */
static void walk(const char *l, const char *name, int stop)
{ int i=0, n=0; char *e;
  for(;;)
  { e=NextEntry((char*)l);
    if(!l[i]) { v_true("next_ends_with_0", e==0); return; }
    v_true("next_not_0", e!=0);
    int j=0; while(e[j] && e[j]==l[i+j]) j++;
    v_true(name, !e[j] && (l[i+j]==' ' || !l[i+j]));
    i+=j; if(l[i]) i++;
    if(++n==stop) { v_true("next_reset", NextEntry(0)==0); return; } } }
void h_next(int *c)
{ char *l=symstr(0,1,c[0],1,c[2]), *m=symstr(50,1,c[1],1,c[2]); int i, st=in_i(100,0,2);
  for(i=0;l[i];i++) v_assume(!(l[i]==' ' && (i==0 || l[i+1]==' ' || !l[i+1])));
  for(i=0;m[i];i++) v_assume(!(m[i]==' ' && (i==0 || m[i+1]==' ' || !m[i+1])));
  walk(l,"next_word",st);
  walk(m,"next_word_of_second_list",0);
  walk(l,"next_word_again",0);
  v_true("next_of_empty", NextEntry("")==0);
  v_reach("end"); }

/* sequences of operations against a reference map */
static void do_sets(void *a) { Sets(((char**)a)[0],((char**)a)[1]); }
static void do_gets(void *a) { Gets(a); }
static void do_start(void *a) { Set_pdb_iStart_AtPar(a); }
static void do_index(void *a) { GetParIndex(a); }
void h_db(int *c)
{ static char *nm[4]={"n","nm","m","x"}; char *val[4]={0,0,0,0}, *ord[4]; int i, j, cnt=0, nn=c[1];
  npdbmax=c[2] ? c[2] : 9;
  v_true("empty_lax", GetsLax("n")==0);
  for(i=0;i<c[0];i++)
  { int op=in_i(10*i,0,3), k=in_i(10*i+1,0,nn-1); char *v=malloc(3), *a[2];
    v[0]='a'+in_i(10*i+2,0,4); v[1]='e'; v[2]=0;
    for(j=0;j<nn;j++) if(k==j) break;
    k=j;
    if(op==0)
    { a[0]=nm[k]; a[1]=v;
      if(!val[k]) { v_true("set_of_missing_is_fatal", v_call_exits(do_sets,a)); v_reach("end"); return; }
      Sets(nm[k],v); val[k]=v; }
    else if(op==1) { AddPar(nm[k],v,"d"); if(!val[k]) { val[k]=v; ord[cnt++]=nm[k]; } }
    else if(op==2) { AddOrModifyPar(nm[k],v,"d"); if(!val[k]) ord[cnt++]=nm[k]; val[k]=v; }
    else
    { if(!val[k]) { v_true("start_at_missing_is_fatal", v_call_exits(do_start,nm[k])); v_reach("end"); return; }
      j=Set_pdb_iStart_AtPar(nm[k]); v_true("start_index", same(GetnameInd(j),nm[k])); }  }
  v_true("number_of_parameters", GetnParameters()==cnt);
  for(j=0;j<nn;j++)
  { char *g=GetsLax(nm[j]);
    v_true("exists_iff_added", (g!=0)==(val[j]!=0));
    if(val[j])
    { v_true("last_value", same(Gets(nm[j]),val[j])); v_true("lax_value", same(g,val[j]));
      v_true("value_by_index", same(GetsInd(GetParIndex(nm[j])),val[j]));
      v_true("name_by_index", same(GetnameInd(GetParIndex(nm[j])),nm[j])); }
    else { v_true("get_of_missing_is_fatal", v_call_exits(do_gets,nm[j])); v_true("index_of_missing_is_fatal", v_call_exits(do_index,nm[j])); } }
  for(j=0;j<cnt;j++) v_true("order_of_creation", same(GetnameInd(j),ord[j]));
  v_true("index_range", GetsInd(cnt)==0 && GetsInd(-1)==0 && GetnameInd(cnt)==0);
  v_reach("end"); }

/* numbers: decimal text -> Geti, Getd and the cached value, after every way of setting */
static void setby(int how, char *n, char *v)
{ if(how==0) { AddPar(n,v,"d"); }
  else if(how==1) { AddPar(n,"17 yes","d"); Sets(n,v); }
  else if(how==2) { AddPar(n,"-3","d"); AddOrModifyPar(n,v,"d"); }
  else { AddPar("other","1","d"); AddPar(n,"0.5 on","d"); Set_pdb_iStart_AtPar(n); Sets(n,v); } }
void h_num(int *c)
{ char v[10]; int i, n=0, neg=in_i(0,0,1), nd=c[0], frac=c[1], x=0, f=0, d; double r; int k;
  npdbmax=5;
  if(neg) v[n++]='-';
  for(i=0;i<nd;i++) { d=in_i(1+i,0,9); v[n++]='0'+d; x=10*x+d; }
  if(frac) { v[n++]='.'; d=in_i(8,0,9); v[n++]='0'+d; f=d; }
  v[n]=0;
  setby(c[2],"p",v);
  v_true("geti", Geti("p")==(neg ? -x : x));
  k=GetParIndex("p");
  v_true("cached_bool_of_number", GetCachedBoolValByParIndex(k)==(neg ? -x : x));
  r=(10.0*x+f)/10.0; if(neg) r=-r;
  v_check("getd", Getd("p"), r, 1e-12);
  v_true("cached_is_getd", GetCachedNumValByParIndex(k)==Getd("p"));
  v_reach("end"); }
/* truth values: contains yes/on/true (three spellings each) or is a nonzero integer */
static int has(const char *s, const char *w)
{ int i, j; for(i=0;s[i];i++) { for(j=0;w[j] && s[i+j]==w[j];j++); if(!w[j]) return 1; } return 0; }
void h_bool(int *c)
{ static char *w[9]={"yes","Yes","YES","on","On","ON","true","True","TRUE"}; char v[12]; int i, n=0, k, t, len=len=0;
  npdbmax=5;
  /* a word with one character changed or not, inside other letters */
  k=c[0];
  for(i=0;i<c[1];i++) v[n++]='g'+in_i(i,0,5);                      /* letters g..l */
  for(i=0;w[k][i];i++) { int ch=in_i(10+i,0,1) ? w[k][i] : 'a'+in_i(20+i,0,1); v[n++]=ch; }
  for(i=0;i<c[2];i++) v[n++]='g'+in_i(30+i,0,5);
  v[n]=0;
  setby(c[3],"p",v);
  for(t=0,i=0;i<9;i++) t|=has(v,w[i]);
  v_true("truth_value", (GetCachedBoolValByParIndex(GetParIndex("p"))!=0)==t);
  v_reach("end"); }
/* the six names of multiples of pi, and nothing else, are replaced by their value */
void h_pi(int *c)
{ static char *w[6]={"pi","-pi","pi/2","-pi/2","2*pi","-2*pi"}; static double f[6]={1,-1,0.5,-0.5,2,-2};
  char v[12]; int i, n, ch, eq=1; double x; char *g;
  npdbmax=5;
  for(i=0;w[c[0]][i];i++) { int d=in_i(i,-1,1); v[i]=w[c[0]][i]+d; if(d) eq=0; }
  v[i]=0; n=in_i(20,0,1); if(n) { v[i]='a'+in_i(21,0,3); v[i+1]=0; eq=0; }
  for(i=0;i<6;i++) if(same(v,w[i])) break;
  setby(c[1],"p",v); g=Gets("p");
  if(i<6)
  { v_check("pi_value", Getd("p"), f[i]*M_PI, 1e-15);
    v_check("pi_cached", GetCachedNumValByParIndex(GetParIndex("p")), f[i]*M_PI, 1e-15); }
  else v_true("other_text_unchanged", same(g,v));
  v_reach("end"); }
/* Seti and Setd are read back exactly */
void h_seti(int *c)
{ int i=in_i(0,c[0],c[1]);
  npdbmax=5; AddPar("p","yes","d"); AddPar("x","1","d");
  Seti("p",i);
  v_true("seti_geti", Geti("p")==i); v_true("seti_bool", GetCachedBoolValByParIndex(0)==i);
  v_true("seti_num", GetCachedNumValByParIndex(0)==(double)i); v_true("other_unchanged", Geti("x")==1);
  v_reach("end"); }
void h_setd(int *c)
{ double x=in_d(0,-1e6,1e6), y;
  npdbmax=5; AddPar("p","yes","d"); AddPar("x","1","d");
  Setd("p",x); y=Getd("p");
  v_true("setd_getd_exact", y==x); v_true("setd_cached", GetCachedNumValByParIndex(0)==x);
  Sets("x",Gets("p")); v_true("text_carries_value", Getd("x")==x);
  v_reach("end"); }
/* copies of the data base */
void create_copy_of_pdb1_in_pdb2(tParameter *pdb1, int npdb1, int npdb1max, tParameter **pdb2);
void copy_pdb(tParameter *pdb1, int npdb1, tParameter *pdb2);
tParameter *make_empty_pdb(int npdb1max);
void free_pdb(tParameter *pdb1, int npdb1);
void h_pdbcopy(int *c)
{ tParameter *q, *e; char *a=symstr(0,0,c[0],1,3), *b=symstr(50,0,c[1],0,3), *d=symstr(150,0,1,0,3); char nm[3]={0,0,0}; int i, op=in_i(120,0,2);
  npdbmax=4; nm[0]='n'+in_i(101,0,1); nm[1]='z';
  AddPar("p",a,d); AddPar(nm,b,"descr");
  create_copy_of_pdb1_in_pdb2(pdb,npdb,npdbmax,&q);
  e=make_empty_pdb(npdbmax); copy_pdb(q,2,e);
  if(op==0) { Sets("p","changed"); Sets(nm,"7"); }
  else if(op==1) { Appends("p","zz"); }
  else free_global_parameter_database();
  for(i=0;i<2;i++) { tParameter *z= i ? e : q;
    v_true("copy_names", same(z[0].name,"p") && same(z[1].name,nm));
    v_true("copy_values", same(z[0].value,a) && same(z[1].value,b));
    v_true("copy_descr", same(z[0].description,d) && same(z[1].description,"descr"));
    v_true("copy_bool", z[1].booleanvalue==0); }
  free_pdb(q,2);
  v_true("copies_independent", same(e[0].value,a));
  v_reach("end"); }

/* parameter file: symbolic white space, comments, quotes and words */
static char txt[400]; static int nt;
static void put(const char *s) { while(*s) txt[nt++]=*s++; }
static void ws(int k, int mode)  /* mode 0: at least one white space character, 1: optional */
{ int n=in_i(k,mode?0:1,2), i, ch;
  for(i=0;i<2;i++) { if(i>=n) break;
    ch=in_i(k+1+i,9,34); v_assume((ch==9)|(ch==10)|(ch==32)|(ch==34)); txt[nt++]=ch; } }
static char *word(int k, int n)
{ char *w=malloc(n+1); int i; for(i=0;i<n;i++) { w[i]='a'+in_i(k+i,0,7); txt[nt++]=w[i]; } w[n]=0; return w; }
static void comment(int k)
{ int n=in_i(k,0,1), m=in_i(k+5,0,2), i, ch; if(!n) return;
  txt[nt++]='#'; for(i=0;i<2;i++) { if(i>=m) break; ch=in_i(k+1+i,32,97); v_assume((ch==32)|(ch==34)|(ch==61)|(ch==97)|(ch==35)); txt[nt++]=ch; }
  txt[nt++]='\n'; }
static char *cat(const char *a, const char *b)
{ char *r=malloc(30); int i=0; while(*a) r[i++]=*a++; r[i++]=' '; while(*b) r[i++]=*b++; r[i]=0; return r; }
/* c[0]: which gaps are arbitrary (bit set); c[1],c[2]: name lengths; c[3]: words of the first value; c[4]: predefined parameters; c[5]: end of file */
void h_parse(int *c)
{ int g=c[0]; char *n1, *n2, *w1=0, *w2=0, *v2, *e1;
  npdbmax=6;
  if(g&1) ws(100,1); if(g&2) comment(110); 
  n1=word(0,c[1]);
  if(g&4) ws(120,1); put("="); if(g&8) ws(130,1);
  if(c[3]>0) w1=word(10,1);
  if(c[3]>1) { if(g&16) ws(140,0); else put(" "); w2=word(20,2); }
  if(g&32) ws(150,1);
  if(g&64) { comment(160); }
  if(g&128) ws(170,0); else put("\n");
  n2=word(30,c[2]);
  v_assume(!same(n1,n2));
  if(g&256) ws(180,1); put("="); if(g&512) ws(190,1);
  v2=word(40,1);
  if(g&1024) { ws(200,1); }
  if(g&2048) { int e=in_i(210,0,1); put(" #"); put(" x=y"); if(e) put("\n"); }
  if(c[5]) put("\n");
  txt[nt]=0;
  v_file_put("t.par",txt);
  if(c[4]&1) AddPar(n1,"old","d"); if(c[4]&2) AddPar(n2,"old 1","d"); if(c[4]&4) AddPar("keep","kept","d");
  parse_parameter_file("t.par");
  e1= c[3]==0 ? "" : c[3]==1 ? w1 : cat(w1,w2);
  v_true("first_parameter_exists", GetsLax(n1)!=0); v_true("second_parameter_exists", GetsLax(n2)!=0);
  v_true("first_value", same(Gets(n1),e1)); v_true("second_value", same(Gets(n2),v2));
  v_true("nothing_else", GetnParameters()==2+(c[4]&4 ? 1 : 0));
  if(c[4]&4) v_true("others_unchanged", same(Gets("keep"),"kept"));
  v_reach("end"); }
/* the same parameter given twice: the last one counts; defaults set by the program later do not override the file */
void h_parse2(int *c)
{ char *a, *b, *d; npdbmax=6;
  put("q ="); a=word(0,2); put(" \n"); put("p= 1\n q ="); b=word(10,2); put("\n"); txt[nt]=0;
  v_file_put("t.par",txt);
  parse_parameter_file("t.par"); d=word(20,1);
  AddPar("q",d,"default"); AddPar("r",d,"default");
  v_true("last_one_counts", same(Gets("q"),b)); v_true("default_used_if_not_in_file", same(Gets("r"),d));
  v_true("count", GetnParameters()==3);
  v_reach("end"); }
