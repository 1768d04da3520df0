#include "orc.h"
#include <vl/liop.c>
#undef VL_QSORT_type
#undef VL_QSORT_array
#undef VL_QSORT_array_const
#undef VL_QSORT_cmp
#include <vl/kmeans.c>
#undef VL_QSORT_type
#undef VL_QSORT_array
#undef VL_QSORT_array_const
#undef VL_QSORT_cmp
#define VL_QSORT_prefix vq
#define VL_QSORT_type float
#include <vl/qsort-def.h>
static int fcmp(const void*a,const void*b){ float x=*(float*)a,y=*(float*)b; return x<y?-1:x>y; }
static double gen(int mode,int i,int n){ switch(mode){case 0:return rndi(-3,3);case 1:return i;case 2:return -i;case 3:return 0;case 4:return i%3;case 5:return (i<n/2)?i:n-i;default:return rndd();} }
static void checkperm(const char*w,const double*key,const vl_uindex*p,int n){ char*s=xmalloc(n); memset(s,0,n); for(int i=0;i<n;++i){ CHECK(p[i]<(vl_uindex)n&&!s[p[i]],"%s: not a permutation at %d",w,i); s[p[i]]=1; if(i) CHECK(key[p[i-1]]<=key[p[i]],"%s: out of order at %d",w,i);} free(s);}
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it);
 for(long t=0;t<it;++t){ int n=1+(rnd(4)?rnd(12):rnd(90)),mode=rnd(8); float*a=xmalloc(n*sizeof*a),*b=xmalloc(n*sizeof*b); double*k=xmalloc(n*sizeof*k); vl_uindex*p=xmalloc(n*sizeof*p);
  CTX("n=%d values:",n); for(int i=0;i<n;++i){ a[i]=(float)gen(mode,i,n); b[i]=a[i]; k[i]=a[i]; p[i]=i; ctx_add(" %g",a[i]); }
  vq_sort(a,n); qsort(b,n,sizeof*b,fcmp); for(int i=0;i<n;++i) CHECK(a[i]==b[i],"float sort: element %d is %g, expected %g",i,a[i],b[i]);
  { VlLiopDesc d; memset(&d,0,sizeof d); float*v=xmalloc(n*sizeof*v); for(int i=0;i<n;++i) v[i]=(float)k[i]; d.patchIntensities=v; d.patchPermutation=p; patch_sort(&d,n); checkperm("patch sort",k,p,n);
    for(int i=0;i<n;++i) p[i]=i; d.neighIntensities=v; d.neighPermutation=p; neigh_sort(&d,n); checkperm("neighbourhood sort",k,p,n); free(v);}
  { int st=1+rnd(4); vl_uint32*q=xmalloc(n*sizeof*q); float*x=xmalloc(n*st*sizeof*x); double*y=xmalloc(n*st*sizeof*y); for(int i=0;i<n*st;++i) x[i]=rndd(),y[i]=rndd(); for(int i=0;i<n;++i){ x[i*st]=k[i]; y[i*st]=k[i]; q[i]=i;} VlKMeansSortWrapper w; w.permutation=q; w.data=x; w.stride=st; _vl_kmeans_f_qsort_sort(&w,n); for(int i=0;i<n;++i) p[i]=q[i]; checkperm("k-means float sort",k,p,n);
    for(int i=0;i<n;++i) q[i]=i; w.data=y; _vl_kmeans_d_qsort_sort(&w,n); for(int i=0;i<n;++i) p[i]=q[i]; checkperm("k-means double sort",k,p,n); free(q); free(x); free(y);}
  CASE(); free(a); free(b); free(k); free(p);} return orc_end(); }
