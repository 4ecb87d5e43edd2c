/* sparse matrices, set up of linear systems, direct solvers and preconditioners on the grid */
#include "lin.h"
/* sparse vectors: any entries at any (also repeated) positions */
#define SN 3
void h_sparse(int *c)
{ tSparseVector **A=AllocateSparseVectorArray(SN); int i, j, e, n[SN], pos[SN][4]; double val[SN][4], M[SN][SN], x[SN], f[SN], s;
  for(i=0;i<SN;i++) for(j=0;j<SN;j++) M[i][j]=0;
  for(i=0;i<SN;i++) { n[i]= i==0 ? pick(1,0,3) : i+1; x[i]=in_d(10+i,-2,2); f[i]=in_d(13+i,-2,2); for(e=0;e<n[i];e++) { pos[i][e]= i<2 ? pick(2+4*i+e,0,2) : (2*e+1)%3; val[i][e]=in_d(20+4*i+e,-2,2); if(e%2) AddToSparseVector(A[i],pos[i][e],val[i][e]); else AddToSparseVector_critical(A[i],pos[i][e],val[i][e]); M[i][pos[i][e]]+=val[i][e]; } }
  for(i=0;i<SN;i++) { v_true("number_of_entries", A[i]->entries==n[i]); for(e=0;e<n[i];e++) v_true("entries_in_order", A[i]->pos[e]==pos[i][e] && A[i]->val[e]==val[i][e]);
    for(j=-1;j<=SN;j++) { double w=0; for(e=n[i]-1;e>=0;e--) if(pos[i][e]==j) w=val[i][e]; v_true("component", GetSparseVectorComponent(A[i],j)==w); } }
  if(c[0]==0) { SparseMatrixLines_times_vector(A,SN,x,f); for(i=0;i<SN;i++) { for(s=0,j=0;j<SN;j++) s+=M[i][j]*x[j]; v_check("matrix_times_vector",f[i],s,1e-12); } }
  if(c[0]==1) { vector_times_SparseMatrixLines(x,A,SN,f); for(i=0;i<SN;i++) { for(s=0,j=0;j<SN;j++) s+=M[j][i]*x[j]; v_check("vector_times_matrix",f[i],s,1e-12); } }
  if(c[0]==2) { SparseMatrixLinesTranspose_times_vector(A,SN,x,f); for(i=0;i<SN;i++) { for(s=0,j=0;j<SN;j++) s+=M[j][i]*x[j]; v_check("transpose_times_vector",f[i],s,1e-12); } }
  FreeSparseVectorArray(A,SN); v_reach("end"); }
/* c[0]: which of the functions; c[1]: variables; c[2]: boxes; c[3]: inactive box; c[4]: small elements: 0 keep all, 1 drop */
static void (*SM[4])(tSparseVector **, void (*)(tVarList*,tVarList*,tVarList*,tVarList*), tVarList*,tVarList*,tVarList*,tVarList*,int)={SetMatrixLines_slowly,SetMatrixLines_forSortedVars_slowly,SetMatrixColumns_slowly,SetMatrixColumns_forSortedVars_slowly};
void h_matrix(int *c)
{ int n, i, j, b, pr=pick(1,0,1), e; tSparseVector **A; double *x, *f, *o, *rr; 
  mk(c[1],c[2],c[3],2); Sets("LinAlg_setABStozero_below", c[4] ? "0.25" : "-1"); if(c[4]) { for(i=0;i<nv*tot*nv*tot;i++) if(i%5==1 && i<12) MM[i]=in_d(2000+i,-2,2); else if((i*7)%9>2) MM[i]= i%3 ? 0.125*(i%5) : -0.125*(i%5); for(b=0;b<nb;b++) for(i=0;i<nn[b];i++) g->box[b]->v[C1][i]=0; }
  n=nl(); A=AllocateSparseVectorArray(n); x=calloc(n,sizeof(double)); f=calloc(n,sizeof(double)); o=calloc(n,sizeof(double));
  SM[c[0]](A,lop,vr,vx,v1,v2,pr);
  forallboxes(g,b) for(j=0;j<nv;j++) for(i=0;i<nn[b];i++) v_true("x_left_at_zero", g->box[b]->v[vx->index[j]][i]==0);
  v_true("one_call_per_column", calls==n);
  for(i=0;i<n;i++) for(e=0;e<A[i]->entries;e++) { v_true("positions_ascend", (e==0 || A[i]->pos[e]>A[i]->pos[e-1]) && A[i]->pos[e]>=0 && A[i]->pos[e]<n); if(c[4]) v_true("small_elements_dropped", A[i]->val[e]>0.25 || A[i]->val[e]<-0.25); }
  /* any field */
  for(j=0;j<nv;j++) for(b=0;b<nb;b++) for(i=0;i<nn[b];i++) g->box[b]->v[U+j][i]=in_d(300+16*j+4*b+i,-1,1);
  if(c[4]) for(i=0;i<nv*tot*nv*tot;i++) if(MM[i]<=0.25 && MM[i]>=-0.25) MM[i]=0;
  lop(vr,vx,v1,v2);
  if(c[0]%2) { copy_varlist_into_array_forSortedVars(vx,x); copy_varlist_into_array_forSortedVars(vr,o); } else { copy_varlist_into_array(vx,x); copy_varlist_into_array(vr,o); }
  if(c[0]<2) SparseMatrixLines_times_vector(A,n,x,f); else SparseMatrixLinesTranspose_times_vector(A,n,x,f);
  for(i=0;i<n;i++) v_check("matrix_is_the_operator", f[i], o[i], 1e-12);
  v_reach("end"); }
/* block of one variable in one box or in a part of it; c[0]: box, c[1]: variable, c[2..4]: number of parts or 0 */
void h_block(int *c)
{ int b=c[0], v=c[1], i, j, k, ii, jj, kk, n1, n2, n3, i1, i2, j1, j2, k1, k2, s[3], m, line; tSparseVector **A; tBox *B; double *x, *y;
  mk(2,3,-1,2); Sets("LinAlg_setABStozero_below","-1"); B=g->box[b]; n1=B->n1; n2=B->n2; n3=B->n3;
  if(c[2]==0)
  { A=AllocateSparseVectorArray(B->nnodes); SetMatrixColumns_ForOneVarInOneBox_slowly(A,v,b,lop,vr,vx,v1,v2,0);
    for(j=0;j<B->nnodes;j++) for(i=0;i<B->nnodes;i++) v_check("block_of_box", GetSparseVectorComponent(A[j],i), MM[lidx(v,b,i)*nv*tot+lidx(v,b,j)]+(v==0 && i==j ? B->v[C1][i] : 0), 1e-12);
    v_reach("end"); return; }
  m=0;
  for(s[2]=0;s[2]<c[4];s[2]++) for(s[1]=0;s[1]<c[3];s[1]++) for(s[0]=0;s[0]<c[2];s[0]++)
  { int nc, ijk, LL[3][2], d, nd[3]; nd[0]=n1; nd[1]=n2; nd[2]=n3; IndexRangesInSubbox(i1,i2,j1,j2,k1,k2,s[0],s[1],s[2],c[2],c[3],c[4]); LL[0][0]=i1; LL[0][1]=i2; LL[1][0]=j1; LL[1][1]=j2; LL[2][0]=k1; LL[2][1]=k2;
    nc=(i2-i1)*(j2-j1)*(k2-k1); m+=nc; A=AllocateSparseVectorArray(nc); x=calloc(nc+1,sizeof(double)); y=calloc(nc+1,sizeof(double));
    for(d=0;d<3;d++) v_true("parts_follow_each_other", LL[d][0]>=0 && LL[d][1]<=nd[d] && (s[d]>0 || LL[d][0]==0) && (s[d]<c[2+d]-1 || LL[d][1]==nd[d]));
    SetMatrixColumns_ForOneVarInOneSubBox_slowly(A,v,b,s[0],s[1],s[2],c[2],c[3],c[4],lop,vr,vx,v1,v2,0);
    copy_varlistCompInSubbox_into_array(vx,v,b,s[0],s[1],s[2],c[2],c[3],c[4],x);
    for(j=0;j<nc;j++) { int J=i1+j%(i2-i1)+n1*(j1+(j/(i2-i1))%(j2-j1)+n2*(k1+j/((i2-i1)*(j2-j1)))); v_true("part_copied", x[j]==B->v[U+v][J]); y[j]=in_d(500+j,-1,1);
      for(i=0;i<nc;i++) { int I=i1+i%(i2-i1)+n1*(j1+(i/(i2-i1))%(j2-j1)+n2*(k1+i/((i2-i1)*(j2-j1)))); v_check("block_of_part", GetSparseVectorComponent(A[j],i), MM[lidx(v,b,I)*nv*tot+lidx(v,b,J)]+(v==0 && I==J ? B->v[C1][I] : 0), 1e-12); } }
    { double old[2][MB][4]; int a, q; for(a=0;a<2;a++) for(q=0;q<nb;q++) for(i=0;i<nn[q];i++) old[a][q][i]=g->box[q]->v[U+a][i];
      copy_array_into_varlistCompInSubbox(y,vx,v,b,s[0],s[1],s[2],c[2],c[3],c[4]);
      for(a=0;a<2;a++) for(q=0;q<nb;q++) for(i=0;i<nn[q];i++) { int ci=i%g->box[q]->n1, cj=(i/g->box[q]->n1)%g->box[q]->n2, ck=i/(g->box[q]->n1*g->box[q]->n2), in= a==v && q==b && ci>=i1 && ci<i2 && cj>=j1 && cj<j2 && ck>=k1 && ck<k2; if(in) line=ci-i1+(i2-i1)*(cj-j1+(j2-j1)*(ck-k1)); v_true("part_set", g->box[q]->v[U+a][i]==(in ? y[line] : old[a][q][i])); } } }
  v_true("parts_cover_box", m==B->nnodes);
  v_reach("end"); }
/* copies and norms; c[0]: variables, c[1]: inactive box */
void h_copies(int *c)
{ int n, i, j, b, k, way; double *x, s, m; mk(c[0],3,c[1],0); n=nl(); x=calloc(n,sizeof(double));
  for(way=0;way<3;way++)
  { if(way==0) copy_varlist_into_array(vx,x); if(way==1) copy_varlist_into_array_forSortedVars(vx,x); if(way==2) copy_vl_into_array_outervlloop(vx,x);
    k=0;
    if(way==0) { forallboxes(g,b) for(i=0;i<nn[b];i++) for(j=0;j<nv;j++) v_true("points_then_variables", x[k++]==g->box[b]->v[U+j][i]); }
    if(way==1) { forallboxes(g,b) for(j=0;j<nv;j++) for(i=0;i<nn[b];i++) v_true("variables_then_points", x[k++]==g->box[b]->v[U+j][i]); }
    if(way==2) { for(j=0;j<nv;j++) forallboxes(g,b) for(i=0;i<nn[b];i++) v_true("variables_then_boxes", x[k++]==g->box[b]->v[U+j][i]); }
    if(way==0) copy_array_into_varlist(x,vr); if(way==1) copy_array_into_varlist_forSortedVars(x,vr); if(way==2) copy_array_into_vl_outervlloop(x,vr);
    for(b=0;b<nb;b++) for(j=0;j<2;j++) for(i=0;i<nn[b];i++)
      if(j<nv && b!=c[1]) { v_true("copied_back", g->box[b]->v[R+j][i]==g->box[b]->v[U+j][i]); g->box[b]->v[R+j][i]=in_d(100+12*(R+j)+4*b+i,-2,2); }
      else v_true("others_unchanged", g->box[b]->v[R+j][i]==in_d(100+12*(R+j)+4*b+i,-2,2)); }
  s=m=0; k=0; forallboxes(g,b) for(j=0;j<nv;j++) for(i=0;i<nn[b];i++) { s+=g->box[b]->v[U+j][i]*g->box[b]->v[R+j][i]; m+=g->box[b]->v[U+j][i]*g->box[b]->v[U+j][i]; k++; }
  v_check("dot_product", GridDotProduct(vx,vr), s, 1e-12); { double q=GridL2Norm(vx); v_check("norm", q*q*k, m, 1e-10); v_le("norm_positive",0,q,0); }
  for(b=0;b<nb;b++) { m=0; for(j=0;j<nv;j++) for(i=0;i<nn[b];i++) m+=g->box[b]->v[U+j][i]*g->box[b]->v[U+j][i]; { double q=BoxL2Norm(b,vx); v_check("box_norm", q*q*nv*nn[b], m, 1e-10); } m=0; for(i=0;i<nn[b];i++) m+=g->box[b]->v[C1][i]*g->box[b]->v[C1][i]; { double q=varBoxL2Norm(g->box[b],C1); v_check("variable_norm", q*q*nn[b], m, 1e-10); } }
  Preconditioner_I(vr,vx,v1,v2);
  forallboxes(g,b) for(j=0;j<nv;j++) for(i=0;i<nn[b];i++) v_true("identity_preconditioner", g->box[b]->v[R+j][i]==g->box[b]->v[U+j][i]);
  v_reach("end"); }

/* ---- direct solvers; the libraries are stand-ins that return any vector, and note by how much it fails to solve what they were given ---- */
#define LN 32
static double l_res[LN], l_x[LN], l_all[32][LN]; static int l_n, l_state, l_code, l_calls, l_num_code[32], l_nums; static char l_sym; typedef struct { const void *Ap, *Ai, *Ax; int n; } tTok;
#define CSC(LI,Ap,Ai) { LI p; v_true("columns_start_at_zero", Ap[0]==0); for(p=0;p<n;p++) { LI e; v_true("columns_follow", Ap[p]<=Ap[p+1]); for(e=Ap[p];e<Ap[p+1];e++) v_true("rows_ascend", Ai[e]>=0 && Ai[e]<n && (e==Ap[p] || Ai[e]>Ai[e-1])); } }
#define SOLVE(Ap,Ai,Ax,X,B) { int p, e; for(p=0;p<l_n;p++) { X[p]=l_x[p]=in_d(700+32*l_calls+p,-1,1); l_res[p]=-B[p]; } for(p=0;p<l_n;p++) for(e=Ap[p];e<Ap[p+1];e++) l_res[Ai[e]]+=Ax[e]*X[p]; for(p=0;p<l_n;p++) l_all[l_calls%32][p]=l_res[p]; l_calls++; }
#define LIB(PRE,LI,XI) \
int PRE##_symbolic(XI n, XI m, const XI *Ap, const XI *Ai, const double *Ax, void **S, const double *C, double *I) { v_true("square_matrix", n==m); CSC(LI,Ap,Ai); l_n=n; *S=&l_sym; l_state=1; return 0; } \
int PRE##_numeric(const XI *Ap, const XI *Ai, const double *Ax, void *S, void **N, const double *C, double *I) { v_true("analysed_before", S==&l_sym && l_state==1); { tTok *t=calloc(1,sizeof(tTok)); t->Ap=Ap; t->Ai=Ai; t->Ax=Ax; t->n=l_n; *N=t; } l_state=2; if(I) { int i; for(i=0;i<UMFPACK_INFO;i++) I[i]=0; } return l_num_code[l_nums++%32]; } \
int PRE##_solve(int sys, const XI *Ap, const XI *Ai, const double *Ax, double *X, const double *B, void *N, const double *C, double *I) { tTok *t=N; v_true("factored_before", t && t->Ap==Ap && t->Ai==Ai && t->Ax==Ax && sys==UMFPACK_A && l_state>=2); l_n=t->n; SOLVE(Ap,Ai,Ax,X,B); return l_code; } \
void PRE##_free_symbolic(void **S) { v_true("freed", *S==&l_sym); *S=NULL; } \
void PRE##_free_numeric(void **N) { if(*N) free(*N); *N=NULL; }
#ifdef UMFPACK
LIB(umfpack_dl,long,long)
LIB(umfpack_di,int,int)
#endif
int dgesv_(int *n, int *nrhs, double *AT, int *lda, int *ip, double *xb, int *ldb, int *info)
{ int i, j; double B[LN]; v_true("one_right_hand_side", *nrhs==1 && *lda==*n && *ldb==*n); l_n=*n; for(i=0;i<l_n;i++) B[i]=xb[i];
  for(i=0;i<l_n;i++) { xb[i]=in_d(700+i,-1,1); l_res[i]=-B[i]; } for(i=0;i<l_n;i++) for(j=0;j<l_n;j++) l_res[i]+=AT[i+l_n*j]*xb[j]; l_calls++; *info=l_code; return 0; }
#ifdef SUITESPARSEQR
int cholmod_l_start(cholmod_common *cc) { cc->status=0; return 1; }
int cholmod_l_finish(cholmod_common *cc) { return 1; }
cholmod_sparse *cholmod_l_allocate_sparse(size_t nr, size_t nc, size_t nz, int sorted, int packed, int stype, int xtype, cholmod_common *cc) { cholmod_sparse *A=calloc(1,sizeof(*A)); A->nrow=nr; A->ncol=nc; A->nzmax=nz; A->p=calloc(nc+1,sizeof(long)); A->i=calloc(nz+1,sizeof(long)); A->x=calloc(nz+1,sizeof(double)); A->stype=stype; A->xtype=xtype; A->sorted=sorted; A->packed=packed; v_true("unsymmetric_packed", stype==0 && packed && sorted && xtype==CHOLMOD_REAL); return A; }
int cholmod_l_free_sparse(cholmod_sparse **A, cholmod_common *cc) { free((*A)->p); free((*A)->i); free((*A)->x); free(*A); *A=NULL; return 1; }
cholmod_dense *cholmod_l_allocate_dense(size_t nr, size_t nc, size_t d, int xtype, cholmod_common *cc) { cholmod_dense *X=calloc(1,sizeof(*X)); X->nrow=nr; X->ncol=nc; X->d=d; X->nzmax=nr*nc; X->x=calloc(nr*nc+1,sizeof(double)); X->xtype=xtype; return X; }
int cholmod_l_free_dense(cholmod_dense **X, cholmod_common *cc) { free((*X)->x); free(*X); *X=NULL; return 1; }
int cholmod_l_check_sparse(cholmod_sparse *A, cholmod_common *cc) { return 1; }
int cholmod_l_check_dense(cholmod_dense *A, cholmod_common *cc) { return 1; }
int cholmod_l_print_sparse(cholmod_sparse *A, const char *s, cholmod_common *cc) { return 1; }
int cholmod_l_print_dense(cholmod_dense *A, const char *s, cholmod_common *cc) { return 1; }
cholmod_dense *SuiteSparseQR_C_backslash_default(cholmod_sparse *A, cholmod_dense *B, cholmod_common *cc)
{ cholmod_dense *X=cholmod_l_allocate_dense(A->nrow,1,A->nrow,A->xtype,cc); long n=A->ncol, *Ap=A->p, *Ai=A->i; double *Ax=A->x, *b=B->x, *x=X->x; v_true("square_matrix", (long)A->nrow==n && (long)B->nrow==n && B->ncol==1); l_n=n; CSC(long,Ap,Ai); SOLVE(Ap,Ai,Ax,x,b); cc->status=l_code; return X; }
#endif
static int (*DS[5])(tVarList *, tVarList *, tVarList *, tVarList *, tVarList *, int, double, double *, void (*)(tVarList *, tVarList *, tVarList *, tVarList *), void (*)(tVarList *, tVarList *, tVarList *, tVarList *))={UMFPACK_solve_wrapper,UMFPACK_solve_wrapper,UMFPACK_solve_forSortedVars_wrapper,LAPACK_dgesv_wrapper,SuiteSparseQR_solve_wrapper};
static int d_kind, d_ret; static double d_norm;
static void d_call(void *a) { d_ret=DS[d_kind](vx,vb,vr,v1,v2,10,1e-3,&d_norm,lop,Preconditioner_I); }
/* c[0]: solver, c[1]: variables, c[2]: boxes, c[3]: inactive box or -1, c[4]: what the library returns, c[5]: elements up to 0.25 are 0 kept, 1 dropped by the matrix set up, 2 dropped by the solver */
void h_direct(int *c)
{ int i, j, b, n, k, s=in_i(1,0,1); double *ar, *ab, old[2][MB][4]; mk(c[1],c[2],c[3],2); n=nl(); d_kind=c[0]; l_code=c[4]; Sets("LinAlg_setABStozero_below","-1"); Sets("GridIterators_setABStozero_below","-1"); (void)s;
  if(c[5]) { for(i=0;i<nv*tot*nv*tot;i++) if((i*5)%7<2) MM[i]=0.125*(i%5)-0.25; for(b=0;b<nb;b++) for(i=0;i<nn[b];i++) g->box[b]->v[C1][i]=0; Sets(c[5]==1 ? "LinAlg_setABStozero_below" : "GridIterators_setABStozero_below","0.25"); }
  Sets("GridIterators_UMFPACK_version", c[0]==1 || c[0]==2 ? "di" : "dl");
  for(b=0;b<nb;b++) for(j=0;j<nv;j++) for(i=0;i<nn[b];i++) g->box[b]->v[Ind("b0")+j][i]=in_d(400+16*j+4*b+i,-1,1);
  for(j=0;j<2;j++) for(b=0;b<nb;b++) for(i=0;i<nn[b];i++) old[j][b][i]=g->box[b]->v[j][i];
  if(c[4]<0 || (c[0]==3 && c[4]!=0)) { v_true("failure_ends_the_run", v_call_exits(d_call,0)); v_true("library_called", l_calls==1 && l_n==n); v_reach("end"); return; }
  d_call(0);
  v_true("library_called_once", l_calls==1 && l_n==n); v_true("success_iff_no_warning", c[4]==0 ? d_ret==0 : d_ret<0);
  ar=calloc(n,sizeof(double)); ab=calloc(n,sizeof(double)); calls=0; if(c[5]) for(i=0;i<nv*tot*nv*tot;i++) if(MM[i]<=0.25 && MM[i]>=-0.25) MM[i]=0; lop(vr,vx,v1,v2);
  if(c[0]==2) { copy_varlist_into_array_forSortedVars(vr,ar); copy_varlist_into_array_forSortedVars(vb,ab); } else { copy_varlist_into_array(vr,ar); copy_varlist_into_array(vb,ab); }
  for(k=0;k<n;k++) v_check("residual_is_that_of_library", ar[k]-ab[k], l_res[k], 1e-12);
  for(j=0;j<2;j++) for(b=0;b<nb;b++) if(j>=nv || b==c[3]) for(i=0;i<nn[b];i++) v_true("others_unchanged", g->box[b]->v[j][i]==old[j][b][i]);
  for(b=0;b<nb;b++) for(j=0;j<nv;j++) for(i=0;i<nn[b];i++) v_true("right_hand_side_unchanged", g->box[b]->v[Ind("b0")+j][i]==in_d(400+16*j+4*b+i,-1,1));
  v_reach("end"); }

/* compressed columns from lines or columns; c[0]: 0 dl 1 di */
void h_csc(int *c)
{ tSparseVector **L=AllocateSparseVectorArray(SN), **K=AllocateSparseVectorArray(SN); int i, j, w, n=0, pat=pick(1,0,c[1]-1)*c[2]%512; double M[SN][SN], lim=in_d(2,0,1);
  for(i=0;i<SN;i++) for(j=0;j<SN;j++) { M[i][j]=0; if(pat>>(3*i+j)&1) { M[i][j]= i==1 && j!=1 ? in_d(10+3*i+j,-2,2) : in_d(10+3*i+j,1.5,2); AddToSparseVector(L[i],j,M[i][j]); AddToSparseVector(K[j],i,M[i][j]); n++; } }
  for(w=0;w<2;w++)
  { double *Ax, N[SN][SN]; long Q[SN+1], I[SN*SN]; for(i=0;i<SN;i++) for(j=0;j<SN;j++) N[i][j]=0;
    if(c[0]==0) { long *Ap, *Ai, r; allocate_umfpack_dl_matrix(&Ap,&Ai,&Ax,SN,n); r=w ? set_umfpack_dl_matrix_from_columns(Ap,Ai,Ax,K,SN,lim,0) : set_umfpack_dl_matrix_from_lines(Ap,Ai,Ax,L,SN,lim,0); v_true("number_of_elements", r==Ap[SN] && r<=n); for(i=0;i<=SN;i++) Q[i]=Ap[i]; for(i=0;i<r;i++) I[i]=Ai[i]; }
    else { int *Ap, *Ai, r; allocate_umfpack_di_matrix(&Ap,&Ai,&Ax,SN,n); r=w ? set_umfpack_di_matrix_from_columns(Ap,Ai,Ax,K,SN,lim,0) : set_umfpack_di_matrix_from_lines(Ap,Ai,Ax,L,SN,lim,0); v_true("number_of_elements", r==Ap[SN] && r<=n); for(i=0;i<=SN;i++) Q[i]=Ap[i]; for(i=0;i<r;i++) I[i]=Ai[i]; }
    v_true("first_is_zero", Q[0]==0);
    for(j=0;j<SN;j++) for(i=Q[j];i<Q[j+1];i++) { v_true("rows_ascend", I[i]>=0 && I[i]<SN && (i==Q[j] || I[i]>I[i-1])); N[I[i]][j]=Ax[i]; v_true("none_small", Ax[i]>lim || Ax[i]<-lim); }
    for(i=0;i<SN;i++) for(j=0;j<SN;j++) v_true("same_matrix", N[i][j]==((M[i][j]>lim)|(M[i][j]<-lim) ? M[i][j] : 0)); }
  v_reach("end"); }

typedef int (*tLS)(tVarList *, tVarList *, tVarList *, tVarList *, tVarList *, int, double, double *, void (*)(tVarList *, tVarList *, tVarList *, tVarList *), void (*)(tVarList *, tVarList *, tVarList *, tVarList *));
static void setb(void) { int b, j, i; for(b=0;b<nb;b++) for(j=0;j<nv;j++) for(i=0;i<nn[b];i++) g->box[b]->v[Ind("b0")+j][i]=in_d(400+16*j+4*b+i,-1,1); }
/* ---- preconditioners: the solver is a stand-in that applies them to any vector; c[0]: kind, c[1]: variables, c[2]: boxes, c[3]: inactive, c[4..6]: parts of a box ---- */
int linSolve_with_Jacobi_precon(tVarList *, tVarList *, tVarList *, tVarList *, tVarList *, tLS, int, double, double *, void (*)(tVarList *, tVarList *, tVarList *, tVarList *));
int linSolve_with_BlockJacobi_precon(tVarList *, tVarList *, tVarList *, tVarList *, tVarList *, tLS, int, double, double *, void (*)(tVarList *, tVarList *, tVarList *, tVarList *));
int linSolve_with_SOR_precon(tVarList *, tVarList *, tVarList *, tVarList *, tVarList *, tLS, int, double, double *, void (*)(tVarList *, tVarList *, tVarList *, tVarList *));
int linSolve_with_fd_UMFPACK_precon(tVarList *, tVarList *, tVarList *, tVarList *, tVarList *, tLS, int, double, double *, void (*)(tVarList *, tVarList *, tVarList *, tVarList *));
extern tSparseVector **SOR_Aline; extern int SOR_nlines;
/* stand-in that marks the grid */
static int fd_conv; void convert_grid_to_fd(tGrid *q) { int a; fd_conv++; forallboxes(q,a) { q->box[a]->x_of_X[1]=(void *)convert_grid_to_fd; q->box[a]->D1[0]=42; } }
static int p_kind, p_parts[3], p_itmax, p_zero; static double p_tol, *p_res;
static double src_(int j, int a, int i) { return p_zero ? 0 : p_kind==2 && nv>1 ? 0.5+0.125*i+0.25*j : in_d(600+16*j+4*a+i,0.5,1); }
static double entry(int r, int k) { int b, i; double v=MM[r*nv*tot+k]; if(k<tot && r%tot==k) { for(b=0;b<nb;b++) for(i=0;i<nn[b];i++) if(lidx(0,b,i)==k) v+=g->box[b]->v[C1][i]; } return v; }
static int lsolver(tVarList *x, tVarList *b, tVarList *r, tVarList *c1, tVarList *c2, int itmax, double tol, double *res, void (*L)(tVarList *, tVarList *, tVarList *, tVarList *), void (*P)(tVarList *, tVarList *, tVarList *, tVarList *))
{ int a, j, i, k, jj, bb, ii; v_true("solver_gets_the_problem", x==vx && b==vb && r==vr && c1==v1 && c2==v2 && itmax==p_itmax && tol==p_tol && res==p_res && L==lop);
  for(j=0;j<nv;j++) forallboxes(g,a) for(i=0;i<nn[a];i++) { g->box[a]->v[R+j][i]= src_(j,a,i); g->box[a]->v[U+j][i]= p_kind==2 && nv>1 && i+j>0 ? 0.25*i-0.5*j : in_d(640+16*j+4*a+i,-1,1); }
  if(p_kind==3) { v_true("converted_once", fd_conv==1); forallboxes(g,a) v_true("grid_as_before", g->box[a]->x_of_X[1]==NULL && g->box[a]->D1[0]==0.5+a); v_true("matrix_set_up_with_finite_differences", fdcalls==nl() && calls==nl()); }
  l_calls=0; P(vx,vr,c1,c2);
  for(j=0;j<nv;j++) forallboxes(g,a) for(i=0;i<nn[a];i++) v_true("its_source_unchanged", g->box[a]->v[R+j][i]==(src_(j,a,i)));
  if(p_kind==0) { for(j=0;j<nv;j++) forallboxes(g,a) for(i=0;i<nn[a];i++) v_check("diagonal", entry(lidx(j,a,i),lidx(j,a,i))*g->box[a]->v[U+j][i], g->box[a]->v[R+j][i], 1e-9); }
  if(p_kind==1) { int q[3], call=0, sc=0, d; for(j=0;j<nv;j++) forallboxes(g,a) for(q[2]=0;q[2]<p_parts[2];q[2]++) for(q[1]=0;q[1]<p_parts[1];q[1]++) for(q[0]=0;q[0]<p_parts[0];q[0]++)
    { tBox *B=g->box[a]; int in[4], nd[3], line=0; nd[0]=B->n1; nd[1]=B->n2; nd[2]=B->n3;
      for(i=0;i<nn[a];i++) { int co[3]; co[0]=i%nd[0]; co[1]=(i/nd[0])%nd[1]; co[2]=i/(nd[0]*nd[1]); in[i]=1; for(d=0;d<3;d++) if(co[d]<(q[d]*nd[d])/p_parts[d] || co[d]>=((q[d]+1)*nd[d])/p_parts[d]) in[i]=0; }
      for(i=0;i<nn[a];i++) if(in[i]) { double s=-B->v[R+j][i]; 
        if(l_num_code[call%32]) v_check("diagonal_if_block_is_singular", entry(lidx(j,a,i),lidx(j,a,i))*B->v[U+j][i], B->v[R+j][i], 1e-9);
        else { for(ii=0;ii<nn[a];ii++) if(in[ii]) s+=entry(lidx(j,a,i),lidx(j,a,ii))*B->v[U+j][ii]; v_check("block", s, l_all[sc][line], 1e-9); } line++; }
      sc+= !l_num_code[call%32]; call++; } }
  if(p_kind==2) { double s=0, t=0; for(j=0;j<nv;j++) forallboxes(g,a) for(i=0;i<nn[a];i++) { double f=-g->box[a]->v[R+j][i]; for(jj=0;jj<nv;jj++) forallboxes(g,bb) for(ii=0;ii<nn[bb];ii++) f+=entry(lidx(j,a,i),lidx(jj,bb,ii))*g->box[bb]->v[U+jj][ii]; s+=f*f; t+=g->box[a]->v[R+j][i]*g->box[a]->v[R+j][i]; if(p_zero) v_true("zero_for_zero", g->box[a]->v[U+j][i]==0); } (void)s; (void)t; v_le("relative_residual", s, 0.25*t, 1e-12); }
  if(p_kind==3) { k=0; forallboxes(g,a) for(i=0;i<nn[a];i++) for(j=0;j<nv;j++) { double f=-g->box[a]->v[R+j][i]; for(jj=0;jj<nv;jj++) forallboxes(g,bb) for(ii=0;ii<nn[bb];ii++) f+=entry(lidx(j,a,i),lidx(jj,bb,ii))*g->box[bb]->v[U+jj][ii]; v_check("whole_matrix", f, l_res[k++], 1e-9); } }
  *res=0.125; return 17; }
void h_precon(int *c)
{ int b, i, j, n, ret; double res=0, *bak[4]; mk(c[1],c[2],c[3],2); n=nl(); setb(); Sets("LinAlg_setABStozero_below","-1"); Sets("GridIterators_setABStozero_below","-1"); Sets("GridIterators_Preconditioner_type","spectral UMFPACK"); p_kind=c[0]; p_itmax=in_i(1,1,100); p_tol=in_d(5,0,1); p_res=&res; p_zero=c[7];
  for(i=0;i<3;i++) { char t[60], w[9]; p_parts[i]=c[4+i]>0 ? c[4+i] : 1; sprintf(t,"GridIterators_Preconditioner_BlockJacobi_nsb%d",i+1); sprintf(w,"%d",p_parts[i]); Sets(t,w); }
  if(c[0]==1 && c[7]) { for(i=0;i<32;i++) l_num_code[i]=i%2; p_zero=0; }
  if(c[0]==2) { for(b=0;b<nb;b++) for(i=0;i<nn[b];i++) g->box[b]->v[C1][i]=0; for(i=0;i<nv*tot*nv*tot;i++) MM[i]= i%(nv*tot+1)==0 ? 2+2*(i/(nv*tot+1)%2) : 0.125*((i*7)%3)-0.125; Sets("GridIterators_Preconditioner_reltol","0.5"); Sets("GridIterators_SOR_omega","1"); Sets("GridIterators_SOR_matrix", c[4] ? "SetMatrixLines_forSortedVars_slowly" : "SetMatrixLines_slowly"); }
  (void)bak; (void)j; (void)n; if(c[0]==3) for(b=0;b<nb;b++) g->box[b]->D1[0]=0.5+b;
  ret= c[0]==0 ? linSolve_with_Jacobi_precon(vx,vb,vr,v1,v2,lsolver,p_itmax,p_tol,&res,lop) : c[0]==1 ? linSolve_with_BlockJacobi_precon(vx,vb,vr,v1,v2,lsolver,p_itmax,p_tol,&res,lop) : c[0]==2 ? linSolve_with_SOR_precon(vx,vb,vr,v1,v2,lsolver,p_itmax,p_tol,&res,lop) : linSolve_with_fd_UMFPACK_precon(vx,vb,vr,v1,v2,lsolver,p_itmax,p_tol,&res,lop);
  v_true("result_of_solver", ret==17 && res==0.125); if(c[0]==2) v_true("matrix_freed", SOR_nlines==0);
  v_reach("end"); }
