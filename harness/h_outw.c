/* which variables are written when; the functions that write are stand-ins that note their calls */
#include "vgrid.h"
#include "output.h"
extern int npdbmax, nvdb; int sgrid_output(void); tBox *alloc_box(tGrid *g, int b, int n1, int n2, int n3); int write_grid(tGrid *);
int timeforoutput_di_dt(tGrid *grid, int di, double dt); int timeforoutput_index(tGrid *grid, int index); int timeforoutput(tGrid *, tVarList *); int timeforoutput_any(tGrid *); void quick_Array_output(tBox *box, double *Ar, char *name, double fake_t, int fake_i); void quick_VarList_output(tBox *box, tVarList *vl, double fake_t, int fake_i);
static int pick(int k, int lo, int hi) { int r=in_i(k,lo,hi), i; for(i=lo;i<hi;i++) if(r==i) return i; return hi; }
#define MC 200
static struct { int d, b; char n[40]; double t, v0; int it; } call[MC]; static int nc;
static void note(int d, tBox *b, char *n) { if(b->v[Ind(n)]==NULL) return; v_true("few_calls", nc<MC); call[nc].d=d; call[nc].b=b->b; strcpy(call[nc].n,n); call[nc].t=b->grid->time; call[nc].it=b->grid->iteration; call[nc++].v0=b->v[Ind(n)][1]; }
void output0d_boxvar(tBox *b, char *n) { note(0,b,n); }
void xgraph_out1_boxvar(tBox *b, char *n) { note(1,b,n); }
void gnuplot_out2d_boxvar(tBox *b, char *n) { note(2,b,n); }
void write3d_boxvar(tBox *b, char *n) { note(3,b,n); }
/* the documented time of output: 0 or number */
static int when(int di, int it, double dt, double T, double dT)
{ int k; if(di>0 && it%di==0) return it/di+1; if(dt>0) for(k=0;k<16;k++) if(T-k*dt>-0.5*dT && T-k*dt<=0.5*dT && T-k*dt>=-0.5*dt && T-k*dt<0.5*dt) return k+1; return 0; }
/* c[0]: 0 iterations, 1 time, 2 both */
void h_when(int *c)
{ tGrid g[1]; int di=c[0]==1 ? -1 : pick(1,-1,3), it=pick(2,0,c[1]), r; double dt= c[0]==0 ? -1 : in_d(3,0.5,4), dT=in_d(4,0.125,1); g->iteration=it; g->dt=dT; g->time=it*dT+ (c[2] ? in_d(5,0,2) : 0);
  if(c[3]) { g->time=-g->time; g->dt=-dT; } 
  r=timeforoutput_di_dt(g,di,dt); v_true("time_for_output", r==when(di,it,dt,fabs(g->time),dT)); if(r==0) v_reach("no"); else v_reach("yes"); v_reach("end"); }
/* every multiple of the interval is written exactly once, at the closest step; c[0]: steps */
void h_once(int *c)
{ tGrid g[1]; int it, k, r, n[12]; double dt=in_d(3,0.25,4), dT=in_d(4,0.125,1); v_assume(dT<dt); for(k=0;k<12;k++) n[k]=0;
  for(it=0;it<=c[0];it++) { g->iteration=it; g->dt=dT; g->time=it*dT; r=timeforoutput_di_dt(g,-1,dt); if(r) { v_true("number_in_range", r>=1 && r<=c[0]+1); n[r-1]++; v_le("close", it*dT-(r-1)*dt, 0.5*dT, 0); v_le("close", (r-1)*dt-it*dT, 0.5*dT, 0); } }
  for(k=0;k<c[0];k++) { v_true("at_most_once", n[k]<=1); if(k*dt<=c[0]*dT) { v_true("written", n[k]==1); v_reach("written"); } }
  v_reach("end"); }
static tGrid *g; static int U, W, K;
static void mk(int nb)
{ int b, i, j; char t[60]; npdbmax=300; AddPar("storage_verbose","no","d"); AddPar("outdir","out","d"); AddPar("nboxes","2","d"); sgrid_output();
  U=nvdb; AddVar("u","","d"); W=nvdb; AddVar("w","i","d"); K=nvdb; AddConstantVar("k","","d"); AddVar("uu","","d"); AddVar("e","","d");
  for(b=0;b<nb;b++) { sprintf(t,"box%d_Coordinates",b); AddPar(t,"Cartesian","d"); }
  g=alloc_grid(nb,nvdb); for(b=0;b<nb;b++) alloc_box(g,b,2,1,1); for(j=U;j<nvdb-1;j++) enablevar(g,j); for(b=0;b<nb;b++) for(j=U;j<nvdb-1;j++) for(i=0;i<2;i++) g->box[b]->v[j][i]=j+10*b+0.25*i; }
static char *word[7]={"u","wx","wz","k","uu","nix","e"};
/* list of up to 3 words with any blanks; returns the number of words */
static int mklist(char *s, int k0, int max, int *w, int sep)
{ int i, j, n=pick(k0,0,max); s[0]=0; for(i=0;i<n;i++) { w[i]=pick(k0+1+i,0,6); if(sep && (i || sep>1)) for(j=pick(k0+5+i,i?1:0,2);j>0;j--) strcat(s," "); else if(i) strcat(s," "); strcat(s,word[w[i]]); } if(sep>1) for(j=pick(k0+9,0,1);j>0;j--) strcat(s," "); return n; }
/* c[0]: dimension with list, c[1]: words, c[2]: blanks 0 single, 1 more between, 2 more anywhere, c[3]: all components 0 no 1 outputall 2 this dimension 3 another dimension, c[4]: set by 0 iterations 1 time, c[5]: second list in next dimension */
void h_which(int *c)
{ static int w[4][3]; int n[4], d, b, i, q, k, it; char s[100], t[40]; mk(2); for(d=0;d<4;d++) n[d]=0;
  g->iteration=it=pick(1,0,2); g->dt=0.5; g->time=0.5*it; if(c[3]==1) Sets("outputall","yes"); if(c[3]==2) { sprintf(t,"%ddoutputall",c[0]); Sets(t,"yes"); } if(c[3]==3) { sprintf(t,"%ddoutputall",(c[0]+1)%4); Sets(t,"yes"); }
  for(d=0;d<4;d++) if(d==c[0] || (c[5] && d==(c[0]+1)%4)) { n[d]=mklist(s,10+20*d,d==c[0] ? c[1] : 1,w[d],c[2]); sprintf(t,"%ddoutput",d); Sets(t,s); sprintf(t,c[4] ? "%ddouttime" : "%ddoutiter",d); if(d==c[0]) Sets(t,c[4] ? "1" : "2"); else Sets(t,"1"); }
  write_grid(g); q=0;
  for(d=0;d<4;d++) { int act= n[d]>0 && (d==c[0] ? it!=1 : c[4]==0 || it!=1); if(d==(c[0]+1)%4 && c[5] && c[4]==0) act=n[d]>0;
    if(act) for(b=0;b<2;b++) for(i=0;i<n[d];i++)
    { int x=w[d][i], all= c[3]==1 || (c[3]==2 && d==c[0]) || (c[3]==3 && d==(c[0]+1)%4); static char *wc[3]={"wx","wy","wz"}; if(x==5 || x==6 || (x==3 && it>0)) continue;
      if((x==1 || x==2) && all) for(k=0;k<3;k++) { v_true("component", q<nc && call[q].d==d && call[q].b==b && strcmp(call[q].n,wc[k])==0); q++; }
      else { v_true("variable", q<nc && call[q].d==d && call[q].b==b && strcmp(call[q].n,word[x])==0); q++; } } }
  v_true("nothing_else", q==nc); if(nc) v_reach("output");
  { tVarList *vl; int e, any=0, ex; ex=0; for(i=0;i<n[c[0]];i++) if(w[c[0]][i]==0) ex=1; if(c[5] && n[(c[0]+1)%4] && w[(c[0]+1)%4][0]==0) any=1;
    e= (ex && it!=1) || (any && (c[4]==0 || it!=1)); v_true("time_for_variable", timeforoutput_index(g,U)==e);
    vl=vlalloc(g); vlpushone(vl,Ind("e")); v_true("time_for_list_without", c[1]>2 || timeforoutput(g,vl)==(timeforoutput_index(g,Ind("e"))!=0)); vlpushone(vl,U); v_true("time_for_list", timeforoutput(g,vl)==(e || timeforoutput_index(g,Ind("e")))); 
    v_true("time_for_any", timeforoutput_any(g)==(it!=1 || (c[5] && c[4]==0))); }
  v_reach("end"); }
/* quick output: c[0]: 0 new variable, 1 enabled variable, 2 list */
void h_quick(int *c)
{ static char *P[10]={"0doutput","1doutput","2doutput","3doutput","3dformat","0doutiter","1doutiter","2doutiter","3doutiter","outputall"}; static char *V[10]={"u","wx k","","uu","dump float binary","-1","7","2","3","no"}; int i, j, d, q=0; double A[2], ft=in_d(1,0,9), t0=in_d(2,0,9); int fi=in_i(3,0,99), i0=in_i(4,0,99); mk(2);
  A[0]=in_d(5,-1,1); A[1]=in_d(6,-1,1); for(i=0;i<10;i++) Sets(P[i],V[i]); g->time=t0; g->iteration=i0; g->dt=0.5;
  if(c[0]==2) { tVarList *vl=vlalloc(g); vlpushone(vl,U); vlpush(vl,W); quick_VarList_output(g->box[1],vl,ft,fi); } else quick_Array_output(g->box[1],A,c[0] ? "uu" : "fresh",ft,fi);
  for(i=0;i<10;i++) v_true("parameters_restored", strcmp(Gets(P[i]),V[i])==0); v_true("time_restored", g->time==t0 && g->iteration==i0);
  for(d=0;d<4;d++) for(i=0;i<nc;i++) if(call[i].d==d && call[i].b==1) { v_true("written_at_given_time", call[i].t==ft && call[i].it==fi); if(c[0]<2) v_true("array_written", call[i].v0==A[1] && strcmp(call[i].n, c[0] ? "uu" : "fresh")==0); q++; }
  v_true("in_all_dimensions", q==(c[0]<2 ? 4 : 16));
  if(c[0]==0) v_true("storage_released", g->box[1]->v[Ind("fresh")]==NULL); if(c[0]==1) v_true("storage_kept", g->box[1]->v[Ind("uu")]!=NULL); (void)j;
  v_reach("end"); }
