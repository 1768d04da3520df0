#include "orc.h"
#include <vl/kdtree.c>
#undef VL_HEAP_cmp
#define VL_HEAP_prefix vh
#define VL_HEAP_type double
#include <vl/heap-def.h>
static char ops[4000];
#define RUN(NAME,PRE,T,KEY,SIGN,TAG,HASPOP,HASUPD) \
static void run_##NAME(void){ enum{CAP=40}; T a[CAP]; T all[CAP]; vl_size n=0; int ids=0; vl_size cap=1+rnd(CAP); int range=1+rnd(12); int mode=rnd(4); ops[0]=0; \
  char key_[256]; memset(a,0,sizeof a); memset(all,0,sizeof all); \
  int len=rnd(120); for(int s=0;s<len;++s){ int op=rnd(5); \
    if(op<=2 && n<cap && ids<CAP){ double k = mode==0? (double)rndi(-range,range) : mode==1? (double)ids : mode==2? -(double)ids : rndd(); T x; memset(&x,0,sizeof x); x KEY=k; TAG(x,ids); all[ids]=x; ids++; a[n]=x; snprintf(key_,256,"push %g; ",k); strncat(ops,key_,sizeof ops-strlen(ops)-1); CTX("heap " #NAME ": %s",ops); vl_size m=n; PRE##_push(a,&n); CHECK(n==m+1,"push: length %d",(int)n);} \
    else if(op==3 && n>0 && HASPOP){ T old[CAP]; memcpy(old,a,sizeof a); strncat(ops,"pop; ",sizeof ops-strlen(ops)-1); CTX("heap " #NAME ": %s",ops); vl_size m=n; vl_uindex r=POPX(PRE,HASPOP); CHECK(n==m-1 && r==n,"pop: returned %d, length %d of %d",(int)r,(int)n,(int)m); \
       for(vl_size i=0;i<m;++i) CHECK(SIGN*(old[i] KEY)>=SIGN*(a[r] KEY),"popped key %g but %g was in the heap",a[r] KEY,old[i] KEY); ids--; { int g=GT_##NAME(a[r]); int h=ids; /* forget g: move the last id into its place */ if(g!=h){ for(vl_size i=0;i<n;++i) if(GT_##NAME(a[i])==h) TAG(a[i],g); all[g]=all[h]; TAG(all[g],g);} } memset(&a[r],0,sizeof(T)); } \
    else if(op==4 && n>0 && HASUPD){ vl_uindex i=rnd(n); double k=mode==3?rndd():(double)rndi(-range,range); a[i] KEY=k; all[GT_##NAME(a[i])] KEY=k; snprintf(key_,256,"update [%d]=%g; ",(int)i,k); strncat(ops,key_,sizeof ops-strlen(ops)-1); CTX("heap " #NAME ": %s",ops); UPDX(PRE,HASUPD); } \
    for(vl_size i=1;i<n;++i) CHECK(SIGN*(a[(i-1)/2] KEY)<=SIGN*(a[i] KEY),"heap order broken at %d",(int)i); \
    char seen[CAP]={0}; for(vl_size i=0;i<n;++i){ int g=GT_##NAME(a[i]); CHECK(g>=0&&g<ids&&!seen[g],"element lost or duplicated at %d",(int)i); seen[g]=1; CHECK(!memcmp(&a[i],&all[g],sizeof(T)),"element altered at %d",(int)i);} \
    for(vl_size i=n;i<cap;++i){ const char*z=(const char*)&a[i]; for(size_t q=0;q<sizeof(T);++q) if(HASPOP) CHECK(z[q]==0,"wrote beyond the heap at %d",(int)i); } } \
  CASE(); }
#define POPX(P,H) POP_##H(P)
#define POP_1(P) P##_pop(a,&n)
#define POP_0(P) (abort(),0)
#define UPDX(P,H) UPD_##H(P)
#define UPD_1(P) P##_update(a,n,i)
#define UPD_0(P) abort()
typedef struct{double k;} D1;
/* plain doubles: the tag is the value itself, checked as a sorted multiset */
#define TAGS(x,i) (x).nodeIndex=(i)
#define TAGD(x,i) (x).dimension=(i)
#define TAGN(x,i) (x).index=(i)
#define GT_search(x) ((int)(x).nodeIndex)
#define GT_split(x) ((int)(x).dimension)
#define GT_neighbor(x) ((int)(x).index)
RUN(search,vl_kdforest_search_heap,VlKDForestSearchState,.distanceLowerBound,1,TAGS,1,1)
RUN(split,vl_kdtree_split_heap,VlKDTreeSplitDimension,.variance,1,TAGD,1,1)
RUN(neighbor,vl_kdforest_neighbor_heap,VlKDForestNeighbor,.distance,-1,TAGN,1,1)
static int dcmp(const void*a,const void*b){ double x=*(double*)a,y=*(double*)b; return x<y?-1:x>y; }
static void run_plain(void){ enum{CAP=40}; double a[CAP],ms[CAP],t[CAP]; vl_size n=0,cap=1+rnd(CAP); ops[0]=0; char key_[128]; int len=rnd(120);
  for(int s=0;s<len;++s){ int op=rnd(5);
    if(op<=2&&n<cap){ double k=rnd(2)?rndi(-5,5):rndd(); a[n]=ms[n]=k; snprintf(key_,128,"push %g; ",k); strncat(ops,key_,sizeof ops-strlen(ops)-1); CTX("double heap: %s",ops); vh_push(a,&n);}
    else if(op==3&&n>0){ strncat(ops,"pop; ",sizeof ops-strlen(ops)-1); CTX("double heap: %s",ops); vl_size m=n; vl_uindex r=vh_pop(a,&n); CHECK(r==m-1&&n==m-1,"pop: %d",(int)r); qsort(ms,m,sizeof(double),dcmp); CHECK(a[r]==ms[0],"popped %g, least is %g",a[r],ms[0]); memmove(ms,ms+1,n*sizeof(double)); }
    else if(op==4&&n>0){ vl_uindex i=rnd(n); double k=rndi(-5,5); for(vl_size q=0;q<n;++q) if(ms[q]==a[i]){ms[q]=k;break;} a[i]=k; snprintf(key_,128,"update [%d]=%g; ",(int)i,k); strncat(ops,key_,sizeof ops-strlen(ops)-1); CTX("double heap: %s",ops); vh_update(a,n,i);}
    for(vl_size i=1;i<n;++i) CHECK(a[(i-1)/2]<=a[i],"heap order broken at %d",(int)i);
    memcpy(t,a,n*sizeof(double)); qsort(t,n,sizeof(double),dcmp); qsort(ms,n,sizeof(double),dcmp); for(vl_size i=0;i<n;++i) CHECK(t[i]==ms[i],"elements changed"); }
  CASE(); }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t){ run_search(); run_split(); run_neighbor(); run_plain(); } return orc_end(); }
