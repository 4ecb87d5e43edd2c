/* variable registry, variable lists, integer lists, storage, point lists, box faces, copies of grids */
#include "sgrid.h"
#include "main.h"
#include "MemoryMan.h"
#include "vh.h"
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
extern int npdbmax, sgrid_restarts, nvdb, globalnvariables, vdb_iStart;
void free_global_vdb(void);
void tensorindexlist(char *t, int *nilist, char **ilist, int *sym);
tBox *alloc_box(tGrid *g, int b, int n1, int n2, int n3);
static int same(const char *a, const char *b) { int i=0; while(a[i] && a[i]==b[i]) i++; return a[i]==b[i]; }
static char *cat(const char *a, const char *b)
{ char *r=malloc(strlen(a)+strlen(b)+1); int i=0; while(*a) r[i++]=*a++; while(*b) r[i++]=*b++; r[i]=0; return r; }
/* a value the run is split over */
static int pick(int k, int lo, int hi) { int s=in_i(k,lo,hi), i; for(i=lo;i<hi;i++) if(s==i) break; return i; }
/* ---------- tensor indices ---------- */
/* kind of each index (3: xyz, 4: txyz, 2: 12), and pairs that are symmetric (s) or antisymmetric (a) */
static struct { char *t[4]; char *kind; char *pair; } T[]={
 {{""},"",""}, {{"i"},"3",""}, {{"ij"},"33",""}, {{"(ij)","ij+ji"},"33","s0"}, {{"[ij]","ij-ji"},"33","a0"}, {{"ijk"},"333",""},
 {{"i(jk)","ijk+ikj"},"333","s1"}, {{"(ij)k","ijk+jik"},"333","s0"}, {{"[ij]k","ijk-jik"},"333","a0"}, {{"ijkl"},"3333",""},
 {{"(ij)(kl)","ijkl+ijlk+jikl+jilk"},"3333","s0s2"}, {{"a"},"4",""}, {{"ab"},"44",""}, {{"ai"},"43",""}, {{"(ab)","ab+ba"},"44","s0"}, {{"a(bc)","abc+acb"},"444","s1"},
 {{"a(ij)","aij+aji"},"433","s1"}, {{"(ab)c","abc+bac"},"444","s0"}, {{"(ab)i","abi+bai"},"443","s0"}, {{"(ab)(ij)","abij+abji+baij+baji"},"4433","s0s2"},
 {{"q"},"2",""}, {{"qr"},"22",""}, {{"(qr)","qr+rq"},"22","s0"}, {{"(qr)s","qrs+rqs"},"222","s0"}, {{"(qr)(st)","qrst+qrts+rqst+rqts"},"2222","s0s2"}, {{"iq"},"32",""}, {{"iqr"},"322",""}, {{"i(qr)","iqr+irq"},"322","s1"} };
static int tcomps(int k, char nam[100][6], int *sy)
{ int nk=strlen(T[k].kind), ix[4], n=0, i, tot=1, m; static char *xs="xyz", *ts="txyz", *qs="12";
  for(i=0;i<nk;i++) tot*=T[k].kind[i]-'0';
  for(m=0;m<tot;m++)
  { int r=m, ok=1, d;
    for(i=nk-1;i>=0;i--) { int s=T[k].kind[i]-'0'; ix[i]=r%s; r/=s; }
    for(i=0;T[k].pair[i];i+=2) { int p=T[k].pair[i+1]-'0'; if(T[k].pair[i]=='s' ? ix[p]>ix[p+1] : ix[p]>=ix[p+1]) ok=0; }
    if(!ok) continue;
    for(d=0;d<3;d++) sy[3*n+d]=1;
    for(i=0;i<nk;i++)
    { char c=T[k].kind[i];
      nam[n][i]= c=='3' ? xs[ix[i]] : c=='4' ? ts[ix[i]] : qs[ix[i]];
      if(c=='4') { if(ix[i]>0) sy[3*n+ix[i]-1]*=-1; } else sy[3*n+ix[i]]*=-1; }
    nam[n][nk]=0; n++; }
  return n; }
void h_tensor(int *c)
{ char nam[100][6], *s, *t=T[c[0]].t[c[1]]; int sy[300], n, i, d, q=0; 
  s=malloc(strlen(t)+1);
  for(i=0;t[i];i++) { s[i]=t[i]; if(t[i]>='a' && t[i]<='z') s[i]=t[i]-32*in_i(i,0,1); if(t[i]=='q') q=1; } s[i]=0;
  n=tcomps(c[0],nam,sy);
  sgrid_restarts=0;
  AddVar("other","","d");
  AddVar("T",s,"d");
  AddVar("last","","d");
  v_true("number_of_components", VarNComponents(1)==n);
  v_true("next_variable_after_components", Ind("last")==1+n);
  for(i=0;i<n;i++)
  { v_true("component_name", same(VarName(1+i),cat("T",nam[i])));
    v_true("component_number", VarComponent(1+i)==i && IndComponent0(1+i)==1 && VarNComponents(1+i)==n);
    v_true("index_of_component", Ind(cat("T",nam[i]))==1+i);
    v_true("tensor_indices_kept", same(VarTensorIndices(1+i),s));
    if(!q) for(d=0;d<3;d++) v_true("reflection_symmetry", VarSymmetry(1+i,d)==sy[3*i+d]); }
  for(d=0;d<3;d++) v_true("scalar_symmetry", VarSymmetry(0,d)==1 && VarSymmetry(1+n,d)==1);
  v_reach("end"); }
static void do_tens(void *a) { AddVar("T",a,"d"); }
void h_badtensor(int *c)   /* anything else is fatal */
{ char s[8]; int i, k, n=c[0], ok=0;
  static char al[6]="ij()+a";
  for(i=0;i<n;i++) s[i]=al[pick(i,0,4)]; s[n]=0;
  for(k=0;k<28;k++) for(i=0;i<4;i++) if(T[k].t[i] && same(T[k].t[i],s)) ok=1;
  v_true("unknown_index_string_is_fatal", v_call_exits(do_tens,s)==!ok);
  v_reach("end"); }
/* ---------- registry ---------- */
static char *vn[4]={"u","ux","uxx","v"}; static char *ti[3]={"","i","(ij)"}; static int nc[3]={1,3,6}; static char *cn[3][6]={{""},{"x","y","z"},{"xx","xy","xz","yy","yz","zz"}};
static char *rname[60]; static int r0[60], rn[60], rc[60], nr;
static int rfind(const char *s) { int i; for(i=0;i<nr;i++) if(same(rname[i],s)) return i; return -1; }
static void do_add(void *a) { char **p=a; AddVar(p[0],p[1],"d"); }
static void do_ind(void *a) { Ind(a); }
static void checkreg(void)
{ int i;
  v_true("number_of_variables", nvdb==nr && globalnvariables==nr);
  for(i=0;i<nr;i++)
  { v_true("name_of_index", same(VarName(i),rname[i])); v_true("index_of_name", Ind(rname[i])==i && IndLax(rname[i])==i);
    v_true("component", VarComponent(i)==i-r0[i] && IndComponent0(i)==r0[i] && VarNComponents(i)==rn[i]);
    v_true("first_component_name", same(VarNameComponent0(rname[i]),rname[r0[i]]));
    v_true("constant_flag", VarConstantFlag(i)==rc[i]); } }
void h_reg(int *c)
{ int i, j, k, t, kind, fatal, dup; char *p[2];
  sgrid_restarts=0;
  for(i=0;i<c[0];i++)
  { k=pick(10*i,0,c[1]-1); t=pick(10*i+1,0,2); kind=pick(10*i+2,0,2);
    for(dup=0,j=0;j<nc[t];j++) if(rfind(cat(vn[k],cn[t][j]))>=0) dup=1;
    if(dup)
    { p[0]=vn[k]; p[1]=ti[t]; v_true("same_name_twice_is_fatal", v_call_exits(do_add,p)); v_reach("end"); return; }
    if(kind==1) AddConstantVar(vn[k],ti[t],"d"); else AddVar(vn[k],ti[t],"d");
    for(j=0;j<nc[t];j++) { rname[nr+j]=cat(vn[k],cn[t][j]); r0[nr+j]=nr; rn[nr+j]=nc[t]; rc[nr+j]= kind==1; }
    if(kind==2) { j=Set_vdb_iStart_AtPar(rname[nr+nc[t]-1]); v_true("start", j==nr+nc[t]-1); }
    nr+=nc[t]; }
  checkreg();
  for(i=0;i<c[1];i++) if(rfind(vn[i])<0) { v_true("missing", IndLax(vn[i])==-1); v_true("missing_is_fatal", v_call_exits(do_ind,vn[i])); }
  if(c[2]==1)
  { double a=in_d(90,-3,3), b=in_d(91,-3,3), d=in_d(92,-3,3); k=pick(93,0,nr-1);
    VarNameSetBoundaryInfo(rname[k],a,b,d);
    for(i=0;i<nr;i++)
    { v_check("far_limit", VarFarLimit(i), i==k ? a : 0, 1e-12); v_check("falloff", VarFallOff(i), i==k ? b : 0, 1e-12); v_check("speed", VarPropSpeed(i), i==k ? d : 0, 1e-12); } }
  if(c[2]==2)
  { sgrid_restarts=1;          /* after a restart the same variables are added again */
    { k=pick(96,0,nr-1); if(r0[k]==k) { int was=rc[k]; t= rn[k]==1 ? 0 : rn[k]==3 ? 1 : 2; p[0]=0;
      for(i=0;i<c[1];i++) if(same(cat(vn[i],cn[t][0]),rname[k])) p[0]=vn[i];
      if(was) AddConstantVar(p[0],ti[t],"d"); else AddVar(p[0],ti[t],"d"); } }
    checkreg(); }
  free_global_vdb(); v_true("all_freed", nvdb==0 && IndLax(vn[0])==-1 && vdb_iStart==0);
  v_reach("end"); }
/* ---------- integer lists ---------- */
static int ref[2][20], rl[2];
static void checklist(intList *l, int w)
{ int i, j, m=l->n; v_true("list_length", l->n==rl[w]); if(m>rl[w]) m=rl[w]; for(i=0;i<m;i++) v_true("list_entries", l->e[i]==ref[w][i]); }
static void rpush(int w, int x) { ref[w][rl[w]++]=x; }
static void rdropi(int w, int i) { int j; for(j=i;j<rl[w]-1;j++) ref[w][j]=ref[w][j+1]; rl[w]--; }
static int rindex_(int w, int x) { int i; for(i=0;i<rl[w];i++) if(ref[w][i]==x) return i; return -1; }
static int bigger(int v, void *p) { return v>*(int*)p; }
void h_list(int *c)
{ intList *a=alloc_intList(), *b=alloc_intList(), *d; int i, j, k, m, o;
  for(i=0;i<c[1];i++) { int x=in_i(200+i,0,3); push_intList(b,x); rpush(1,x); }
  for(i=0;i<c[2];i++) { int x=in_i(300+i,0,3); push_intList(a,x); rpush(0,x); }
  for(i=0;i<c[0];i++)
  { int op=pick(10*i,0,8), x=in_i(10*i+1,-1,3);
    if(op==0) { push_intList(a,x); rpush(0,x); }
    else if(op==1) { pushlist_intList(a,b); m=rl[1]; for(j=0;j<m;j++) rpush(0,ref[1][j]); }
    else if(op==2) { unionpush_intList(a,x); if(rindex_(0,x)<0) rpush(0,x); }
    else if(op==3) { unionpushlist_intList(a,b); for(j=0;j<rl[1];j++) if(rindex_(0,ref[1][j])<0) rpush(0,ref[1][j]); }
    else if(op==4) { k=pick(10*i+2,-1,4); dropindex_intList(a,k); if(k>=0 && k<rl[0]) rdropi(0,k); }
    else if(op==5) { drop_intList(a,x); k=rindex_(0,x); if(k>=0) rdropi(0,k); }
    else if(op==6) { k=pick(10*i+2,-1,4); droplastn_intList(a,k); if(k>0) rl[0]= k>rl[0] ? 0 : rl[0]-k; }
    else if(op==7) { droplist_intList(a,b); for(j=0;j<rl[1];j++) { k=rindex_(0,ref[1][j]); if(k>=0) rdropi(0,k); } }
    else { clear_intList(a); rl[0]=0; v_true("cleared", a->e==0); } 
    v_true("in_list", in_intList(a,x)==(rindex_(0,x)>=0)); v_true("index_in_list", index_intList(a,x)==rindex_(0,x)); }
  checklist(a,0); checklist(b,1);
  k=in_i(400,-1,3); m=pick(401,-1,3);
  for(o=-1,j=m<0?0:m;j<rl[0];j++) if(ref[0][j]>k) { o=j; break; }
  v_true("index_with_property", index_prop_intList(a,m,bigger,&k)==o);
  d=duplicate_intList(a); push_intList(a,7); clear_intList(b);
  checklist(d,0);
  free_intList(a); free_intList(b); free_intList(d);
  v_reach("end"); }
/* ---------- variable lists ---------- */
static void checkvl(tVarList *l, int w)
{ int i, m=l->n; v_true("vl_length", l->n==rl[w]); if(m>rl[w]) m=rl[w]; for(i=0;i<m;i++) v_true("vl_entries", l->index[i]==ref[w][i]); }
static void do_push(void *a) { void **p=a; vlpush(p[0],*(int*)p[1]); }
void h_vl(int *c)
{ tVarList *u=vlalloc(0), *w=vlalloc(0), *d; int i, j, k, n0; void *p[2];
  sgrid_restarts=0;
  AddVar("u","","d"); AddVar("g","(ij)","d"); AddVar("b","i","d");          /* indices 0, 1-6, 7-9 */
  u->time=in_d(99,0,3);
  for(i=0;i<c[1];i++) { int x=pick(200+i,5,9); vlpushone(w,x); rpush(1,x); }
  for(i=0;i<c[0];i++)
  { int op=pick(10*i,0,5), x= op==5 ? 0 : pick(10*i+1,0,c[2]); static int ix[6]={0,1,7,4,9,8};
    x=ix[x]; n0= x==0 ? 0 : x<7 ? 1 : 7; int nn= x==0 ? 1 : x<7 ? 6 : 3;
    if(op==0) { vlpushone(u,x); rpush(0,x); }
    else if(op==1)
    { if(x!=n0) { p[0]=u; p[1]=&x; v_true("push_of_later_component_is_fatal", v_call_exits(do_push,p)); v_reach("end"); return; }
      vlpush(u,x); for(j=0;j<nn;j++) rpush(0,x+j); }
    else if(op==2) { vlpushvl(u,w); for(j=0;j<rl[1];j++) rpush(0,ref[1][j]); }
    else if(op==3) { vldropone(u,x); k=rindex_(0,x); if(k>=0) rdropi(0,k); }
    else if(op==4) { if(x!=n0) continue; vldrop(u,x); for(j=0;j<nn;j++) { k=rindex_(0,x+j); if(k>=0) rdropi(0,k); } }
    else { k=pick(10*i+2,-1,4); vldropn(u,k); if(k>0) rl[0]= k>rl[0] ? 0 : rl[0]-k; } }
  checkvl(u,0); checkvl(w,1);
  d=vlduplicate(u); v_check("vl_time", d->time, u->time, 0); vlpushone(u,0); u->time=17; checkvl(d,0);
  vlfree(u); vlfree(w); vlfree(d);
  v_reach("end"); }
/* small grid without any coordinates: c boxes with n points */
static tGrid *mk(int nb, int n)
{ tGrid *g; int b; npdbmax=9; AddPar("storage_verbose","no","d"); 
  g=alloc_grid(nb,nvdb); for(b=0;b<nb;b++) alloc_box(g,b,n,1,1);
  return g; }
/* arithmetic with variable lists: op, aliasing (0 none, 1 r=a, 2 r=b, 3 a=b, 4 all same) */
void h_vlarith(int *c)
{ tGrid *g; tVarList *L[3]; double v0[3][3][2][2], t0[3], ca=1, cb=1; int op=c[0], al=c[1], i, n, b, l, m[3]={0,1,2}, nv=2, ina, k;
  sgrid_restarts=0; AddVar("r","i","d"); AddVar("a","i","d"); AddVar("b","i","d");
  g=mk(3,2);
  ina=pick(95,0,3); if(ina<3) { intList *il=alloc_intList(); push_intList(il,ina); deactivate_boxes(g,il); }
  if(al==1) m[1]=0; if(al==2) m[2]=0; if(al==3) m[2]=1; if(al==4) m[1]=m[2]=0;
  for(l=0;l<3;l++) { L[l]=vlalloc(g); for(n=0;n<nv;n++) vlpushone(L[l],3*m[l]+(n ? 2 : 0)); L[l]->time=0; }
  for(l=1;l<3;l++) if(m[l]<l) { vlfree(L[l]); L[l]=L[m[l]]; }
  enablevar(g,0); enablevar(g,3); enablevar(g,6);
  for(l=0;l<3;l++) { L[l]->time=in_d(90+m[l],-2,2); for(b=0;b<3;b++) for(n=0;n<3;n++) for(i=0;i<2;i++) g->box[b]->v[3*l+n][i]=in_d(100+18*l+6*b+2*n+i,-2,2); }
  for(l=0;l<3;l++) { t0[l]=L[l]->time; for(b=0;b<3;b++) for(n=0;n<2;n++) for(i=0;i<2;i++) v0[l][b][n][i]=g->box[b]->v[L[l]->index[n]][i]; }
  if(op>=4) { k=pick(96,0,c[2]); ca= k==0 ? in_d(97,-3,3) : k==1 ? 0 : k==2 ? 1 : -1; k=pick(98,0,1); cb= k ? in_d(99,-3,3) : 0; }
  if(op==4 && al==0) { if(ca==0) disablevar(g,3); if(cb==0) disablevar(g,6); }
  switch(op) {
   case 0: vlsetconstant(L[0],in_d(80,-2,2)); break;
   case 1: vlcopy(L[0],L[1]); break;
   case 2: vlaverage(L[0],L[1],L[2]); break;
   case 3: vlsubtract(L[0],L[1],L[2]); break;
   case 4: vladd(L[0],ca,L[1],cb,L[2]); break;
   case 5: vladdto(L[0],ca,L[1]); break;
   case 6: varadd(g,0,ca,3*m[1],cb,3*m[2]); varadd(g,2,ca,3*m[1]+2,cb,3*m[2]+2); break;
   case 7: varcopy(g,0,3*m[1]); varcopy(g,2,3*m[1]+2); break;
   case 8: vlswap(L[0],L[1]); break;
   case 9: varswap(g,0,3*m[1]); varswap(g,2,3*m[1]+2); break; }
#define X(o,z,x,y,w) (o==0 ? w : o==1||o==7||o==8||o==9 ? x : o==2 ? 0.5*(x+y) : o==3 ? x-y : o==4||o==6 ? ca*x+cb*y : z+ca*x)
  for(b=0;b<3;b++)
  { int act= b!=ina;
    for(n=0;n<2;n++) for(i=0;i<2;i++)
    { double x=v0[1][b][n][i], y=v0[2][b][n][i], z=v0[0][b][n][i], w= op==0 ? in_d(80,-2,2) : 0;
      v_check("result", g->box[b]->v[L[0]->index[n]][i], act ? X(op,z,x,y,w) : z, 1e-12);
      if((op==8 || op==9) && al==0) v_check("other_operand_gets_result", g->box[b]->v[L[1]->index[n]][i], act ? z : x, 1e-12);
      if(op<8 && m[1]!=0 && g->box[b]->v[L[1]->index[n]]) v_check("first_operand_unchanged", g->box[b]->v[L[1]->index[n]][i], x, 0);
      if(m[2]!=0 && m[2]!=1 && g->box[b]->v[L[2]->index[n]]) v_check("second_operand_unchanged", g->box[b]->v[L[2]->index[n]][i], y, 0); }
    for(i=0;i<2;i++) v_check("other_component_unchanged", g->box[b]->v[1][i], in_d(100+6*b+2+i,-2,2), 0); }
  v_check("time", L[0]->time, op==0||op==6||op==7||op==9 ? t0[0] : X(op,t0[0],t0[1],t0[2],0), 1e-12);
  if(op==8 && al==0) v_check("other_time", L[1]->time, t0[0], 1e-12);
  v_reach("end"); }
/* duplicates of variables: registry, attributes, storage */
void h_dup(int *c)
{ tGrid *g= 0; tVarList *u, *d; int i, j, b, n0, pre=pick(0,0,2), gr=pick(1,0,1), en=pick(2,0,1), s, cst=pick(3,0,1); double far=in_d(10,-2,2), fall=in_d(11,-2,2), sp=in_d(12,-2,2), x=in_d(20,-2,2);
  sgrid_restarts=0;
  if(cst) AddConstantVar("g","(ij)","dg"); else AddVar("g","(ij)","dg");
  AddVar("b","i","db");
  if(pre==1) AddVar("b_py","","mine"); if(pre==2) AddVar("gxy_p","","mine");
  n0=nvdb;
  VarNameSetBoundaryInfo("gxz",far,fall,sp); VarNameSetBoundaryInfo("bx",fall,sp,far);
  npdbmax=9; AddPar("storage_verbose","no","d");
  if(gr) { g=mk(2,2); enablevar(g,0); g->box[1]->v[3][1]=x; }
  u=vlalloc(g); u->time=3;
  vlpush(u,0); if(c[0]) vlpushone(u,7); if(c[0]>1) { vlpushone(u,6); vldropone(u,0); }
  d= en && gr ? AddDuplicateEnable(u,"_p") : AddDuplicate(u,"_p");
  v_true("same_length", d->n==u->n && u->n==6+(c[0]==1)+(c[0]>1));
  v_true("new_variables", nvdb==n0+u->n-(pre==2));
  if(gr) v_true("grid_has_room", g->nvariables==nvdb);
  for(i=0;i<u->n;i++)
  { int a=u->index[i], q=d->index[i];
    v_true("name_with_postfix", same(VarName(q),cat(VarName(a),"_p"))); v_true("registered", Ind(VarName(q))==q);
    if(q>=n0)
    { v_true("same_symmetry", VarSymmetry(q,0)==VarSymmetry(a,0) && VarSymmetry(q,1)==VarSymmetry(a,1) && VarSymmetry(q,2)==VarSymmetry(a,2));
      v_true("same_component", VarComponent(q)==VarComponent(a)); v_true("same_indices", same(VarTensorIndices(q),VarTensorIndices(a)));
      v_check("same_far", VarFarLimit(q), VarFarLimit(a), 0); v_check("same_falloff", VarFallOff(q), VarFallOff(a), 0); v_check("same_speed", VarPropSpeed(q), VarPropSpeed(a), 0);
      v_true("same_constant", VarConstantFlag(q)==VarConstantFlag(a)); }
    if(gr) for(b=0;b<2;b++)
    { v_true("storage_as_asked", (g->box[b]->v[q]!=0)==en); if(en) for(j=0;j<2;j++) v_check("storage_is_zero", g->box[b]->v[q][j], 0, 0); } }
  if(gr) v_check("old_data_kept", g->box[1]->v[3][1], x, 0);
  { tVarList *d2=AddDuplicate(u,"_p"); v_true("second_duplicate_adds_nothing", nvdb==n0+u->n-(pre==2)); for(i=0;i<u->n;i++) v_true("second_duplicate_same", d2->index[i]==d->index[i]); }
  v_reach("end"); }
/* ---------- storage ---------- */
void h_store(int *c)
{ tGrid *g, *h; int on[2][8]={{0}}, i, j, b, k; double val[2][8]={{0}}; tVarList *l;
  sgrid_restarts=0; AddVar("s","","d"); AddVar("b","i","d");
  g=mk(2,2);
  for(i=0;i<c[0];i++)
  { int op=pick(10*i,0,9), x= pick(10*i+1,0,1); double w=in_d(10*i+2,1,2);
    k= x ? 1 : 0; int n= x ? 3 : 1;
    switch(op) {
     case 0: enablevar(g,k); for(b=0;b<2;b++) for(j=k;j<k+n;j++) on[b][j]=1; break;
     case 1: disablevar(g,k); for(b=0;b<2;b++) for(j=k;j<k+n;j++) { on[b][j]=0; val[b][j]=0; } break;
     case 2: enablevarcomp(g,2); on[0][2]=on[1][2]=1; break;
     case 3: disablevarcomp(g,3); on[0][3]=on[1][3]=0; val[0][3]=val[1][3]=0; break;
     case 4: enablevar_inbox(g->box[x],1); for(j=1;j<4;j++) on[x][j]=1; break;
     case 5: disablevar_inbox(g->box[x],1); for(j=1;j<4;j++) { on[x][j]=0; val[x][j]=0; } break;
     case 6: l=vlalloc(g); vlpushone(l,3); vlpushone(l,0); enablevarlist(l); on[0][0]=on[1][0]=on[0][3]=on[1][3]=1; vlfree(l); break;
     case 7: l=vlalloc(g); vlpushone(l,2); vlpushone(l,1); vldisable(l); for(b=0;b<2;b++) for(j=1;j<3;j++) { on[b][j]=0; val[b][j]=0; } vlfree(l); break;
     case 8: if(nvdb<7) { AddVarToGrid(g,nvdb==4 ? "w" : nvdb==5 ? "y" : "z","","d"); enablevarcomp(g,nvdb-1); on[0][nvdb-1]=on[1][nvdb-1]=1; } break;
     case 9: if(on[x][2]) { g->box[x]->v[2][1]=w; val[x][2]=w; } if(on[x][0]) { g->box[x]->v[0][1]=-w; val[x][0]=-w; } break; }
    v_true("room_for_all", g->nvariables==nvdb); }
  for(b=0;b<2;b++) for(j=0;j<nvdb;j++)
  { v_true("storage_exactly_if_enabled", (g->box[b]->v[j]!=0)==on[b][j]);
    if(g->box[b]->v[j]) { v_check("first_value", g->box[b]->v[j][0], 0, 0); v_check("value_kept", g->box[b]->v[j][1], val[b][j], 0); 
      v_true("index_from_pointer", IndFromPtr(g->box[b],g->box[b]->v[j])==j);
      for(i=0;i<nvdb;i++) if(i!=j) v_true("own_storage", g->box[b]->v[i]!=g->box[b]->v[j]); } }
  h=alloc_grid(2,nvdb); for(b=0;b<2;b++) alloc_box(h,b,2,1,1);
  enablesamevars(g,h);
  for(b=0;b<2;b++) for(j=0;j<nvdb;j++) v_true("same_storage_in_other_grid", (h->box[b]->v[j]!=0)==on[b][j] && (!on[b][j] || h->box[b]->v[j]!=g->box[b]->v[j]));
  free_grid(g); free_grid(h);
  v_reach("end"); }
/* ---------- point lists ---------- */
static int pr[4][12], pn[4], bl[4], nbl;
static void checkpl(tPointList *P, int nb)
{ int b, i, pi, ijk, k;
  v_true("boxes_in_list", P->nblist==nbl); for(i=0;i<nbl;i++) v_true("box_order", P->blist[i]==bl[i]);
  for(b=0;b<nb;b++)
  { v_true("number_of_points", P->npoints[b]==pn[b]); for(i=0;i<pn[b];i++) v_true("points", P->point[b][i]==pr[b][i]);
    k=0; { tBox *box=P->grid->box[b]; forPointList_inbox(P,box,pi,ijk) { v_true("loop_over_points", k<pn[b] && ijk==pr[b][k]); k++; } } v_true("loop_visits_all", k==pn[b]); } }
void h_points(int *c)
{ tGrid *g, *h; tPointList *P, *Q; int i, j, b, nb=c[1];
  sgrid_restarts=0; AddVar("s","","d"); g=mk(nb,2); h=mk(nb,2);
  P=AllocatePointList(g);
  for(i=0;i<c[2];i++) { AddToPointList(P,nb-1-i,7+i); pr[nb-1-i][pn[nb-1-i]++]=7+i; bl[nbl++]=nb-1-i; }
  for(i=0;i<c[0];i++)
  { int op=pick(10*i,0,2), x=in_i(10*i+1,0,3); b=pick(10*i+2,0,nb-1);
    if(op==0)
    { AddToPointList(P,b,x); pr[b][pn[b]++]=x; for(j=0;j<nbl;j++) if(bl[j]==b) break; if(j==nbl) bl[nbl++]=b; }
    else if(op==1)
    { DropFromPointList(P,b,x); for(j=0;j<pn[b];j++) if(pr[b][j]==x) { int m; for(m=j;m<pn[b]-1;m++) pr[b][m]=pr[b][m+1]; pn[b]--; break; } }
    else
    { intList *l=alloc_intList(); int y[2], q; y[0]=x; y[1]=in_i(10*i+3,0,3); push_intList(l,y[0]); push_intList(l,y[1]); DropListFromPointList(P,b,l); free_intList(l);
      for(q=0;q<2;q++) for(j=0;j<pn[b];j++) if(pr[b][j]==y[q]) { int m; for(m=j;m<pn[b]-1;m++) pr[b][m]=pr[b][m+1]; pn[b]--; break; } } }
  checkpl(P,nb);
  Q= in_i(500,0,1) ? DuplicatePointList(P) : DuplicatePointList_for_grid(P,h);
  checkpl(Q,nb); v_true("copy_is_for_grid", Q->grid==g || Q->grid==h);
  AddToPointList(P,0,5); FreePointList(P); checkpl(Q,nb);
  AddToPointList(Q,0,5); pr[0][pn[0]++]=5; for(j=0;j<nbl;j++) if(bl[j]==0) break; if(j==nbl) bl[nbl++]=0;
  checkpl(Q,nb);
  FreePointList(Q); v_true("copy_of_nothing", DuplicatePointList(0)==0);
  v_reach("end"); }
/* ---------- box faces ---------- */
void h_bface(int *c)
{ tGrid *g; tBox *box; int n=0, i, j, f[12], tag[12], np[12], first[12]; 
  sgrid_restarts=0; AddVar("s","","d"); g=mk(1,2); box=g->box[0];
  for(i=0;i<c[0];i++)
  { int op=pick(10*i,0,4), x=pick(10*i+1,0,5), k= n ? pick(10*i+2,-1,n) : -1;
    if(op==0 || op==1)
    { if(op==0) { j=add_empty_bface(box,x); np[n]=0; first[n]=-1; } else { j=add_point_to_bface_inbox(box,-1,x+10,x); np[n]=1; first[n]=x+10; }
      v_true("index_of_new_face", j==n); box->bface[j]->ob=100+i; f[n]=x; tag[n]=100+i; n++; }
    else if(op==2)
    { if(k<0 || k>=n) continue; j=add_point_to_bface_inbox(box,k,i+20,x); v_true("index_of_old_face", j==k); if(f[k]!=x) f[k]=-1; if(np[k]==0) first[k]=i+20; np[k]++; }
    else if(op==3)
    { v_true("removed", remove_bface(box,k)==(k>=0 && k<n)); if(k>=0 && k<n) { for(j=k;j<n-1;j++) { f[j]=f[j+1]; tag[j]=tag[j+1]; np[j]=np[j+1]; first[j]=first[j+1]; } n--; } }
    else
    { int m=0, q; for(q=0,j=0;j<n;j++) if(np[j]==0) m++; else { f[q]=f[j]; tag[q]=tag[j]; np[q]=np[j]; first[q]=first[j]; q++; } n=q;
      v_true("empty_faces_removed", remove_bfaces_with_NULL_fpts(box)==m); } }
  v_true("number_of_faces", box->nbfaces==n);
  for(i=0;i<n;i++)
  { tBface *t=box->bface[i], *d;
    v_true("face_data", t->fi==i && t->f==f[i] && t->ob==tag[i] && t->b==0 && t->grid==g && t->ofi==-1);
    v_true("face_points", (t->fpts!=0)==(np[i]>0) && (np[i]==0 || (t->fpts->npoints[0]==np[i] && t->fpts->point[0][0]==first[i])));
    t->touch=in_i(600+i,0,1); t->sameX=in_i(620+i,0,1); t->outerbound=in_i(640+i,0,1);
    d=duplicate_bface_for_grid(t,g);
    v_true("copy_of_face", d!=t && d->fi==i && d->f==t->f && d->ob==t->ob && d->touch==t->touch && d->sameX==t->sameX && d->outerbound==t->outerbound && d->innerbound==0);
    v_true("copy_has_own_points", (d->fpts!=0)==(np[i]>0) && (np[i]==0 || (d->fpts!=t->fpts && d->fpts->npoints[0]==np[i] && d->fpts->point[0][0]==first[i])));
    free_bface(d); }
  free_all_bfaces(box); v_true("all_faces_removed", box->nbfaces==0 && box->bface==0);
  v_reach("end"); }
/* ---------- box lists, active boxes ---------- */
void h_boxes(int *c)
{ tGrid *g; intList *l=alloc_intList(), *m=alloc_intList(), *s=alloc_intList(); int nb=c[0], i, b, act[6], at[6], k, n, ia=pick(99,0,2);
  sgrid_restarts=0; AddVar("s","","d"); g=mk(nb,2);
  for(b=0;b<nb;b++) { at[b]=in_i(10+b,0,2); g->box[b]->Attrib[ia]=at[b]; g->box[b]->Attrib[ia+1]=2-at[b]; act[b]=1; }
  for(i=0;i<c[2];i++)
  { int op=pick(30+10*i,0,3), x, y; x= op<2 ? pick(31+10*i,0,nb-1) : 0; y= op<2 && c[1]>1 ? pick(32+10*i,x,nb-1) : nb-1-x;
    clear_intList(s); push_intList(s,x); push_intList(s,y);
    if(op==0) { deactivate_boxes(g,s); act[x]=act[y]=0; } else if(op==1) { activate_boxes(g,s); act[x]=act[y]=1; }
    else if(op==2) { deactivate_allboxes(g); for(b=0;b<nb;b++) act[b]=0; } else { activate_allboxes(g); for(b=0;b<nb;b++) act[b]=1; }
    for(n=0,b=0;b<nb;b++) { n+=act[b]; v_true("active_flag", g->box[b]->inactive==!act[b]); }
    v_true("number_active", activeboxes(g)==n); }
  for(n=0,b=0;b<nb;b++) if(act[b]) { v_true("ith_active_box", IndexOf_ith_ActiveBox(g,n)==b); n++; }
  v_true("no_more_active", IndexOf_ith_ActiveBox(g,n)==-1);
  push_intList(l,5); push_intList(m,6);
  k=bladd_ifAttrib(g,ia,1,l); v_true("list_length_returned", k==l->n);
  for(n=1,b=0;b<nb;b++) if(act[b] && at[b]==1) { v_true("box_with_attribute", n<l->n && l->e[n]==b); n++; }
  v_true("only_boxes_with_attribute", l->n==n && l->e[0]==5);
  k=bladd_ifnotAttrib(g,ia,1,m); v_true("list_length_returned", k==m->n);
  for(n=1,b=0;b<nb;b++) if(act[b] && at[b]!=1) { v_true("box_without_attribute", n<m->n && m->e[n]==b); n++; }
  v_true("only_boxes_without_attribute", m->n==n);
  clear_intList(l); clear_intList(m); clear_intList(s); for(b=nb-1;b>=0;b--) push_intList(s,b);
  bl2_ifAttrib(g,s,ia,2,l); bl2_ifnotAttrib(g,s,ia,2,m);
  for(n=k=0,b=nb-1;b>=0;b--) if(at[b]==2) { v_true("sublist_with", n<l->n && l->e[n]==b); n++; } else { v_true("sublist_without", k<m->n && m->e[k]==b); k++; }
  v_true("sublist_lengths", l->n==n && m->n==k);
  v_reach("end"); }
/* neighbours: each face has any other box or none */
void h_neigh(int *c)
{ tGrid *g; intList *l=alloc_intList(), *m=alloc_intList(); int nb=c[0], nf=c[1], ob[5][3], i, b, b2, is, is2, j;
  sgrid_restarts=0; AddVar("s","","d"); g=mk(nb,2);
  for(b=0;b<nb;b++) for(i=0;i<nf;i++) { j=add_empty_bface(g->box[b],i); ob[b][i]=pick(10*b+i,-1,nb-1); if(ob[b][i]==b) ob[b][i]=-1; g->box[b]->bface[j]->ob=ob[b][i]; }
#define N(x,y) (ob[x][0]==y || (nf>1 && ob[x][1]==y) || (nf>2 && ob[x][2]==y))
  bladd_neighbors(g->box[0],l); bladd_neighbors_of_neighbors(g->box[0],m);
  for(b=0;b<nb;b++)
  { for(is=0,i=0;i<l->n;i++) is+= l->e[i]==b;
    v_true("neighbour_listed_once", is==(N(0,b) ? 1 : 0));
    for(is2=0,b2=0;b2<nb;b2++) if(N(0,b2) && N(b2,b) && b!=0 && !N(0,b)) is2=1;
    for(is=0,i=0;i<m->n;i++) is+= m->e[i]==b;
    v_true("next_nearest_listed_once", is==is2); }
  v_reach("end"); }
/* ---------- copies of a grid ---------- */
/* all function pointers of a box: w==0 sets each to something else, w==1 counts those which are still equal */
static char fdum[2][400];
static int fptrs(tBox *o, tBox *q, int w, int base)
{ int i, j, k, n=0, r=0;
#define FP(x) { if(w==0) *(void **)&o->x=fdum[base]+n; else r+= *(void **)&q->x==(void *)(fdum[base]+n); n++; }
  for(i=1;i<4;i++) { FP(x_of_X[i]) FP(Sing_d_dx[i]) for(j=1;j<4;j++) { FP(dX_dx[i][j]) FP(dx_dX[i][j]) for(k=1;k<4;k++) FP(ddX_dxdx[i][j][k]) } }
  FP(XYZ_Of_xyz) FP(isSing) FP(basis1) FP(basis2) FP(basis3) FP(get_coeffs1) FP(get_coeffs2) FP(get_coeffs3)
  FP(coeffs_of_deriv1) FP(coeffs_of_deriv2) FP(coeffs_of_deriv3) FP(coeffs_of_2ndderiv1) FP(coeffs_of_2ndderiv2) FP(coeffs_of_2ndderiv3)
  FP(coeffs_of_int1) FP(coeffs_of_int2) FP(coeffs_of_int3) FP(eval_onPoints1) FP(eval_onPoints2) FP(eval_onPoints3) FP(filter_coeffs1) FP(filter_coeffs2) FP(filter_coeffs3)
  return w ? r==n : n; }
void h_copygrid(int *c)
{ tGrid *g, *h; int b, i, j, vi; double x; int mode=pick(0,0,2), ina=pick(1,0,2);
  sgrid_restarts=0; AddVar("s","","d"); AddVar("b","i","d"); g=mk(2,2); h=mk(2,2);
  g->iteration=in_i(10,0,9); g->time=in_d(11,0,9); g->dt=in_d(12,0,9); h->iteration=-1;
  enablevar(g,0); enablevarcomp_inbox(g->box[1],2);
  for(b=0;b<2;b++)
  { tBox *o=g->box[b];
    for(i=0;i<6;i++) o->bbox[i]=in_d(20+10*b+i,-3,3);
    fptrs(o,0,0,b); for(i=0;i<2;i++) { o->node[i].i=in_i(480+2*b+i,0,9); o->node[i].type=in_i(484+2*b+i,0,9); }
    o->TransformType1=in_i(488+b,0,3); o->TransformType3=in_i(490+b,0,3); o->periodic[2]=in_i(492+b,0,1);
    for(i=0;i<4;i++) { o->D1[i]=in_d(100+20*b+i,-1,1); o->DD1[i]=in_d(104+20*b+i,-1,1); o->F1[i]=in_d(108+20*b+i,-1,1); o->Int1[i]=in_d(112+20*b+i,-1,1); o->Mcoeffs1[i]=in_d(116+20*b+i,-1,1); o->Meval1[i]=in_d(200+20*b+i,-1,1); }
    { double *E[12]={o->D2,o->DD2,o->F2,o->Mcoeffs2,o->Meval2,o->Int2,o->D3,o->DD3,o->F3,o->Mcoeffs3,o->Meval3,o->Int3}; for(i=0;i<12;i++) E[i][0]=in_d(700+20*b+i,-1,1); }
    for(i=0;i<2;i++) o->v[0][i]=in_d(300+10*b+i,-1,1);
    for(i=0;i<NATTRIBS;i++) o->Attrib[i]=in_i(400+20*b+i,0,5);
    o->periodic[1]=in_i(450+b,0,1); o->periodic[3]=in_i(452+b,0,1); o->TransformType2=in_i(454+b,0,3);
    o->CI->dom=in_i(460+b,0,5); o->CI->xc[2]=in_d(462+b,-1,1); o->CI->s[5]=in_d(464+b,1,2);
    for(i=0;i<=b;i++) { j=add_point_to_bface_inbox(o,-1,i,3-b); add_point_to_bface_inbox(o,j,i+1,3-b); o->bface[j]->ob=1-b; o->bface[j]->sameZ=in_i(470+2*b+i,0,1);
      { tBface *f=o->bface[j]; int q=800+40*b+20*i; f->ofi=in_i(q,-1,5); f->oXi=in_i(q+1,-1,9); f->oYi=in_i(q+2,-1,9); f->oZi=in_i(q+3,-1,9); f->touch=in_i(q+4,0,1); f->sameX=in_i(q+5,0,1); f->sameY=in_i(q+6,0,1); f->same_fpts=in_i(q+7,0,1); f->fpts_off_face=in_i(q+8,0,1); f->setnormalderiv=in_i(q+9,0,1); f->innerbound=in_i(q+10,0,1); f->outerbound=in_i(q+11,0,1); } }
    for(i=0;i<6;i++) { o->CI->iFS[i]=in_i(900+40*b+i,-1,5); o->CI->iSurf[i]=in_i(906+40*b+i,-1,5); for(j=1;j<4;j++) o->CI->idSurfdX[i][j]=in_i(912+40*b+3*i+j,-1,5); o->CI->FSurf[i]=(void *)(fdum[b]+300+i); o->CI->dFSurfdX[i][2]=(void *)(fdum[b]+310+i); }
    o->CI->type=in_i(934+40*b,0,5); o->CI->useF=in_i(935+40*b,0,1); }
  for(i=0;i<2;i++) g->box[1]->v[2][i]=in_d(330+i,-1,1);
  if(ina<2) { intList *l=alloc_intList(); push_intList(l,ina); deactivate_boxes(g,l); }
  add_empty_bface(h->box[0],5);
  if(mode==0) copy_grid(g,h,0);
  else { copy_grid_withoutvars(g,h,0); if(mode==2) { enablevar(h,0); copy_gridvar(0,g,h); } }
  v_true("iteration", h->iteration==g->iteration); v_check("time", h->time, g->time, 0); v_check("dt", h->dt, g->dt, 0); v_true("active", activeboxes(h)==activeboxes(g));
  for(b=0;b<2;b++)
  { tBox *o=g->box[b], *q=h->box[b];
    for(i=0;i<6;i++) v_check("bbox", q->bbox[i], o->bbox[i], 0);
    v_true("functions_of_box", fptrs(o,q,1,b)); for(i=0;i<2;i++) v_true("nodes", q->node[i].i==o->node[i].i && q->node[i].type==o->node[i].type);
    v_true("transforms", q->TransformType1==o->TransformType1 && q->TransformType3==o->TransformType3 && q->periodic[2]==o->periodic[2] && q->nnodes==o->nnodes && q->n1==o->n1);
    for(i=0;i<4;i++) { v_check("D1", q->D1[i], o->D1[i], 0); v_check("DD1", q->DD1[i], o->DD1[i], 0); v_check("F1", q->F1[i], o->F1[i], 0); v_check("Int1", q->Int1[i], o->Int1[i], 0); v_check("Mcoeffs1", q->Mcoeffs1[i], o->Mcoeffs1[i], 0); v_check("Meval1", q->Meval1[i], o->Meval1[i], 0); }
    { double *A[12]={q->D2,q->DD2,q->F2,q->Mcoeffs2,q->Meval2,q->Int2,q->D3,q->DD3,q->F3,q->Mcoeffs3,q->Meval3,q->Int3}, *E[12]={o->D2,o->DD2,o->F2,o->Mcoeffs2,o->Meval2,o->Int2,o->D3,o->DD3,o->F3,o->Mcoeffs3,o->Meval3,o->Int3};
      for(i=0;i<12;i++) { v_true("own_matrix", A[i]!=E[i]); v_check("matrix", A[i][0], E[i][0], 0); v_check("matrix_value", A[i][0], in_d(700+20*b+i,-1,1), 0); } }
    for(i=0;i<NATTRIBS;i++) v_true("attributes", q->Attrib[i]==o->Attrib[i]);
    v_true("periodic", q->periodic[1]==o->periodic[1] && q->periodic[3]==o->periodic[3] && q->TransformType2==o->TransformType2);
    v_true("coordinates", q->CI->dom==o->CI->dom); v_check("centre", q->CI->xc[2], o->CI->xc[2], 0); v_check("surface", q->CI->s[5], o->CI->s[5], 0);
    v_true("coordinate_settings", q->CI!=o->CI && q->CI->type==o->CI->type && q->CI->useF==o->CI->useF);
    for(i=0;i<6;i++) { v_true("surfaces", q->CI->iFS[i]==o->CI->iFS[i] && q->CI->iSurf[i]==o->CI->iSurf[i] && (void *)q->CI->FSurf[i]==(void *)(fdum[b]+300+i) && (void *)q->CI->dFSurfdX[i][2]==(void *)(fdum[b]+310+i)); for(j=1;j<4;j++) v_true("surfaces", q->CI->idSurfdX[i][j]==o->CI->idSurfdX[i][j]); }
    v_true("grid_of_box", q->grid==h && q->b==b && q->inactive==o->inactive);
    v_true("faces", q->nbfaces==b+1);
    for(i=0;i<q->nbfaces && i<=b;i++)
    { tBface *t=q->bface[i];
      v_true("face", t!=o->bface[i] && t->grid==h && t->b==b && t->fi==i && t->f==3-b && t->ob==1-b && t->sameZ==o->bface[i]->sameZ);
      { tBface *f=o->bface[i]; v_true("face_settings", t->ofi==f->ofi && t->oXi==f->oXi && t->oYi==f->oYi && t->oZi==f->oZi && t->touch==f->touch && t->sameX==f->sameX && t->sameY==f->sameY && t->same_fpts==f->same_fpts && t->fpts_off_face==f->fpts_off_face && t->setnormalderiv==f->setnormalderiv && t->innerbound==f->innerbound && t->outerbound==f->outerbound); }
      v_true("face_points", t->fpts!=o->bface[i]->fpts && t->fpts->npoints[b]==2 && t->fpts->point[b][0]==i && t->fpts->point[b][1]==i+1 && t->fpts->grid==h); }
    for(vi=0;vi<4;vi++)
    { v_true("storage", (q->v[vi]!=0)==(mode==0 ? o->v[vi]!=0 : mode==2 && vi==0));
      if(q->v[vi] && b!=ina) { v_true("own_values", q->v[vi]!=o->v[vi]); for(i=0;i<2;i++) v_check("values", q->v[vi][i], o->v[vi][i], 0); } } }
  x=h->box[1]->D1[0]; g->box[1]->D1[0]=50; g->box[1]->v[0][0]=60; free_grid(g);
  v_check("independent_matrix", h->box[1]->D1[0], x, 0);
  if(mode==0 && ina!=1) v_check("independent_values", h->box[1]->v[0][0], in_d(310,-1,1), 0);
  v_true("independent_points", h->box[1]->bface[0]->fpts->point[1][1]==1);
  free_grid(h);
  v_reach("end"); }
/* loops over planes visit exactly the points of the plane once */
void h_planes(int *c)
{ int n1=c[0], n2=c[1], n3=c[2], i, j, k, p, d, cnt[64], tot=n1*n2*n3, e, in;
  for(d=1;d<=3;d++)
  { p=in_i(d,0,2); { int nd= d==1 ? n1 : d==2 ? n2 : n3; v_assume(p<nd); }
#define CNT { int q=(i)+n1*((j)+n2*(k)); v_true("inside", i>=0 && i<n1 && j>=0 && j<n2 && k>=0 && k<n3); cnt[q]++; v_true("index", Index(i,j,k)==q && kOfInd_n1n2(q,n1,n2)==k && jOfInd_n1n2_k(q,n1,n2,k)==j && iOfInd_n1n2_jk(q,n1,n2,j,k)==i); }
    for(e=0;e<4;e++)
    { for(i=0;i<tot;i++) cnt[i]=0;
      if(e==0) { if(d==1) forplane1(i,j,k,n1,n2,n3,p) CNT else if(d==2) forplane2(i,j,k,n1,n2,n3,p) CNT else forplane3(i,j,k,n1,n2,n3,p) CNT }
      if(e==1) forplaneN(d,i,j,k,n1,n2,n3,p) CNT
      if(e==2) { if(d==1) forplane1_nojump(i,j,k,n1,n2,n3,p) CNT else if(d==2) forplane2_nojump(i,j,k,n1,n2,n3,p) CNT else forplane3_nojump(i,j,k,n1,n2,n3,p) CNT }
      if(e==3) forinnerplaneN(d,i,j,k,n1,n2,n3,p) CNT
      for(k=0;k<n3;k++) for(j=0;j<n2;j++) for(i=0;i<n1;i++)
      { in=(d==1 ? i : d==2 ? j : k)==p;
        if(e==3) in= in && (d==1 || (i>0 && i<n1-1)) && (d==2 || (j>0 && j<n2-1)) && (d==3 || (k>0 && k<n3-1));
        v_true("visited_once", cnt[i+n1*(j+n2*k)]==in); } } }
  v_reach("end"); }
