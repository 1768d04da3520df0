#include "orc.h"
#include <vl/kdtree.h>
static int D,N,isf,l1; static double X[4000],Q[400]; static float Xf[4000],Qf[400];
static double dist(double const*a,double const*b){ double s=0; for(int i=0;i<D;++i){ double d=a[i]-b[i]; s+=l1?fabs(d):d*d; } return s; }
static int cmp(const void*a,const void*b){ double x=*(double*)a,y=*(double*)b; return x<y?-1:x>y; }
static char*seen; static double lo[64],up[64];
static void walk(VlKDTree*t,int n,int depth,int maxd){ CHECK(n>=0&&n<(int)t->numUsedNodes,"node %d of %d",n,(int)t->numUsedNodes); VlKDTreeNode*p=t->nodes+n; CHECK(depth<=maxd,"deeper than possible");
  int d=p->splitDimension; CHECK(d>=0&&d<D,"split dimension"); CHECK(p->lowerBound==lo[d]&&p->upperBound==up[d],"node %d: bounds [%g,%g] of dimension %d are not those of its cell [%g,%g]",n,p->lowerBound,p->upperBound,d,lo[d],up[d]);
  if(p->lowerChild<0){ int b=-p->lowerChild-1,e=-p->upperChild-1; CHECK(b>=0&&b<e&&e<=N,"leaf range %d..%d",b,e); for(int i=b;i<e;++i){ int x=(int)t->dataIndex[i].index; CHECK(x>=0&&x<N&&!seen[x],"point %d is in two leaves or none",x); seen[x]=1; for(int j=0;j<D;++j){ double v=X[x*D+j]; CHECK(v>=lo[j]-1e-9*(1+fabs(lo[j]))&&v<=up[j]+1e-9*(1+fabs(up[j])),"point %d is outside the cell of its leaf %d",x,n); } } return; }
  CHECK((int)t->nodes[p->lowerChild].parent==n&&(int)t->nodes[p->upperChild].parent==n,"parent link"); double o=up[d]; up[d]=p->splitThreshold; walk(t,(int)p->lowerChild,depth+1,maxd); up[d]=o; o=lo[d]; lo[d]=p->splitThreshold; walk(t,(int)p->upperChild,depth+1,maxd); lo[d]=o; }
static void verify(char const*who,VlKDForestNeighbor*nb,int k,double const*q,int exact,int ncomp){ double*all=xmalloc(8*N); char*us=xmalloc(N); memset(us,0,N); for(int j=0;j<N;++j) all[j]=dist(q,X+j*D); double*so=xmalloc(8*N); memcpy(so,all,8*N); qsort(so,N,8,cmp); int m=k<N?k:N,got=0; while(got<k&&nb[got].index!=(vl_uindex)-1&&(nb[got].index!=0xffffffffu)) ++got;
  if(exact) CHECK(got==m,"%s: %d neighbours returned, %d expected",who,got,m); else CHECK(got<=m&&(got==m||got==ncomp),"%s: %d neighbours after %d comparisons",who,got,ncomp);
  for(int i=0;i<got;++i){ int x=(int)nb[i].index; CHECK(x>=0&&x<N&&!us[x],"%s: neighbour %d is point %d",who,i,x); us[x]=1; double tol=(isf?1e-5:1e-10)*(1e-30+all[x]); CHECK(fabs(nb[i].distance-all[x])<=tol,"%s: point %d at distance %g, reported %g",who,x,all[x],nb[i].distance); if(i) CHECK(nb[i].distance>=nb[i-1].distance,"%s: neighbours not by increasing distance",who); if(exact) CHECK(fabs(all[x]-so[i])<=2*(isf?1e-5:1e-10)*(1e-30+so[i]+all[x]),"%s: neighbour %d is point %d at distance %.9g, but the %d-th nearest is at %.9g",who,i,x,all[x],i,so[i]); }
  for(int i=got;i<k;++i) CHECK(isnan(nb[i].distance),"%s: missing neighbour %d has distance %g",who,i,nb[i].distance); free(all); free(so); free(us); }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); seen=xmalloc(4000); for(long t=0;t<it;++t){ D=1+rnd(rnd(4)?4:12); N=1+rnd(rnd(3)?30:4000/D); if(N>300&&rnd(3)) N=1+N%60; if(N*D>4000) N=4000/D; isf=rnd(2); l1=rnd(3)==0; int kind=rnd(7); double base=rndu();
  for(int i=0;i<N*D;++i){ double v=kind==0?rndi(-2,2):kind==1?rndu():kind==2?(i<D?rndd():X[rnd(i/D+1)*D+i%D]):kind==3?base:kind==4?rndd():kind==5?ldexp(rndu(),-(int)rnd(3)*8):rndi(0,100)/8.0; if(kind==2&&i>=D&&rnd(2)) v=X[i-D]; Xf[i]=(float)v; X[i]=isf?Xf[i]:v; }
  int nt=1+rnd(rnd(3)?1:4),mean=rnd(2),nq=1+rnd(6); vl_rand_seed(vl_get_rand(),rnd(1000)); for(int i=0;i<nq*D;++i){ double v=rnd(3)?X[rnd(N)*D+i%D]+(rnd(2)?0:(rndu()-.5)*(kind==0?4:.3)):3*rndd(); Qf[i]=(float)v; Q[i]=isf?Qf[i]:v; }
  CTX("%s %s %s, dim %d, %d trees, %d points:",isf?"float":"double",l1?"l1":"l2",mean?"mean":"median",D,nt,N); for(int i=0;i<N*D&&i<80;++i) ctx_add(" %.9g",X[i]);
  VlKDForest*f=vl_kdforest_new(isf?VL_TYPE_FLOAT:VL_TYPE_DOUBLE,D,nt,l1?VlDistanceL1:VlDistanceL2); vl_kdforest_set_thresholding_method(f,mean?VL_KDTREE_MEAN:VL_KDTREE_MEDIAN); vl_kdforest_build(f,N,isf?(void*)Xf:(void*)X);
  CHECK((int)vl_kdforest_get_num_trees(f)==nt&&(int)vl_kdforest_get_data_dimension(f)==D,"geometry"); for(int i=0;i<nt;++i){ memset(seen,0,N); for(int j=0;j<D;++j){ lo[j]=-INFINITY; up[j]=INFINITY; } VlKDTree*tr=f->trees[i]; CHECK(tr->numUsedNodes<=tr->numAllocatedNodes,"%d nodes used of %d",(int)tr->numUsedNodes,(int)tr->numAllocatedNodes); walk(tr,0,0,N+1); for(int j=0;j<N;++j) CHECK(seen[j],"point %d is in no leaf of tree %d",j,i); }
  VlKDForestSearcher*s2=rnd(2)?vl_kdforest_new_searcher(f):0; int k=1+rnd(rnd(3)?5:N+4); VlKDForestNeighbor*nb=xmalloc(sizeof*nb*k); vl_uint32*ix=xmalloc(4*k*nq); void*dd=xmalloc(8*k*nq);
  for(int q=0;q<nq;++q){ void*qp=isf?(void*)(Qf+q*D):(void*)(Q+q*D); size_t l0=strlen(orc_ctx); ctx_add(" | query"); for(int i=0;i<D;++i) ctx_add(" %.9g",Q[q*D+i]); vl_kdforest_set_max_num_comparisons(f,0); int n=(int)vl_kdforest_query(f,nb,k,qp); CHECK(n<=N,"%d comparisons for %d points",n,N); verify("exact search",nb,k,Q+q*D,1,n);
   if(s2){ vl_kdforestsearcher_query(s2,nb,k,qp); verify("second searcher",nb,k,Q+q*D,1,0); }
   int mx=1+rnd(N+2); vl_kdforest_set_max_num_comparisons(f,mx); n=(int)vl_kdforest_query(f,nb,k,qp); CHECK(n<=mx,"%d comparisons, at most %d allowed",n,mx); verify("limited search",nb,k,Q+q*D,mx>=N,n); orc_ctx[l0]=0; }
  vl_kdforest_set_max_num_comparisons(f,0); vl_kdforest_query_with_array(f,ix,k,nq,dd,isf?(void*)Qf:(void*)Q); for(int q=0;q<nq;++q){ for(int i=0;i<k;++i){ nb[i].index=ix[q*k+i]; nb[i].distance=isf?((float*)dd)[q*k+i]:((double*)dd)[q*k+i]; } verify("array search",nb,k,Q+q*D,1,0); }
  if(s2&&rnd(2)) vl_kdforestsearcher_delete(s2); vl_kdforest_delete(f); free(nb);free(ix);free(dd); CASE(); } return orc_end(); }
