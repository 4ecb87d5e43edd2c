/* C library string functions, executed symbolically when a string holds symbolic bytes */
typedef unsigned long size_t;
typedef unsigned char uc;
void *malloc(size_t);
size_t vs_strlen(const char *s) { size_t n=0; while(s[n]) n++; return n; }
int vs_strcmp(const char *a, const char *b)
{ while(*a && *a==*b) { a++; b++; } return (uc)*a==(uc)*b ? 0 : (uc)*a<(uc)*b ? -1 : 1; }
int vs_strncmp(const char *a, const char *b, size_t n)
{ while(n && *a && *a==*b) { a++; b++; n--; } return !n || (uc)*a==(uc)*b ? 0 : (uc)*a<(uc)*b ? -1 : 1; }
static int lc(int c) { return c>='A' && c<='Z' ? c+32 : c; }
int vs_strcasecmp(const char *a, const char *b)
{ while(*a && lc((uc)*a)==lc((uc)*b)) { a++; b++; } return lc((uc)*a)-lc((uc)*b); }
int vs_memcmp(const char *a, const char *b, size_t n)
{ while(n && *a==*b) { a++; b++; n--; } return !n ? 0 : (uc)*a<(uc)*b ? -1 : 1; }
char *vs_strcpy(char *d, const char *s) { size_t i=0; while((d[i]=s[i])) i++; return d; }
char *vs_stpcpy(char *d, const char *s) { while((*d=*s)) { d++; s++; } return d; }
char *vs_strncpy(char *d, const char *s, size_t n)
{ size_t i=0; for(;i<n && s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char *vs_strcat(char *d, const char *s) { size_t n=vs_strlen(d); vs_strcpy(d+n,s); return d; }
char *vs_strncat(char *d, const char *s, size_t n)
{ size_t k=vs_strlen(d), i=0; for(;i<n && s[i];i++) d[k+i]=s[i]; d[k+i]=0; return d; }
char *vs_strchr(const char *s, int c)
{ for(;;s++) { if(*s==(char)c) return (char *)s; if(!*s) return 0; } }
char *vs_strrchr(const char *s, int c)
{ const char *r=0; for(;;s++) { if(*s==(char)c) r=s; if(!*s) return (char *)r; } }
char *vs_strstr(const char *h, const char *n)
{ for(;;h++) { size_t i=0; while(n[i] && h[i]==n[i]) i++; if(!n[i]) return (char *)h; if(!*h) return 0; } }
static int in(int c, const char *d) { for(;*d;d++) if(*d==(char)c) return 1; return 0; }
size_t vs_strspn(const char *s, const char *d) { size_t n=0; while(s[n] && in(s[n],d)) n++; return n; }
size_t vs_strcspn(const char *s, const char *d) { size_t n=0; while(s[n] && !in(s[n],d)) n++; return n; }
char *vs_strdup(const char *s) { char *r=malloc(vs_strlen(s)+1); return vs_strcpy(r,s); }
char *vs_strtok_r(char *s, const char *d, char **sv)
{ char *t; if(!s) s=*sv; if(!s) return 0;
  while(*s && in(*s,d)) s++;
  if(!*s) { *sv=s; return 0; }
  t=s; while(*s && !in(*s,d)) s++;
  if(*s) { *s=0; s++; } *sv=s; return t; }
static int sp(int c) { return c==' ' || (c>=9 && c<=13); }
long vs_atol(const char *s)
{ long v=0; int neg=0; while(sp(*s)) s++;
  if(*s=='-') { neg=1; s++; } else if(*s=='+') s++;
  while(*s>='0' && *s<='9') { v=10*v+(*s-'0'); s++; }
  return neg ? -v : v; }
int vs_atoi(const char *s) { return (int) vs_atol(s); }
int vs_isspace(int c) { return sp(c); }
int vs_isdigit(int c) { return c>='0' && c<='9'; }
int vs_isupper(int c) { return c>='A' && c<='Z'; }
int vs_islower(int c) { return c>='a' && c<='z'; }
int vs_isalpha(int c) { return vs_isupper(c) || vs_islower(c); }
int vs_isalnum(int c) { return vs_isalpha(c) || vs_isdigit(c); }
int vs_tolower(int c) { return lc(c); }
int vs_toupper(int c) { return vs_islower(c) ? c-32 : c; }
/* can strtod read a number here? */
int vs_numstart(const char *s)
{ int c;
  for(;;s++) { c=(uc)*s; if(!((c==32)|((c>=9)&(c<=13)))) break; }
  if((c=='+')|(c=='-')) c=(uc)s[1];
  return (((c>='0')&(c<='9'))|(c=='.')|((c|32)=='i')|((c|32)=='n')) ? 1 : 0; }
