#include "orc.h"
#include <vl/aib.h>
static int n,L;
static double plogp(double x){ return x>0?x*log(x):0; }
/* loss of information when p and q are merged */
static double loss(const double*p,const double*q){ double a=0,b=0,s=0; for(int l=0;l<L;++l){ a+=p[l]; b+=q[l]; } s=plogp(a+b)-plogp(a)-plogp(b); for(int l=0;l<L;++l) s+=plogp(p[l])+plogp(q[l])-plogp(p[l]+q[l]); return s; }
static double mass(const double*p){ double s=0; for(int l=0;l<L;++l) s+=p[l]; return s; }
static void one(void){ n=1+rnd(10); L=1+rnd(5); int kind=rnd(4); double*T=xmalloc(8*n*L),*P=xmalloc(8*2*n*L),tot=0; CTX("%d values, %d labels:",n,L);
  for(int i=0;i<n*L;++i){ double v=kind==0?rnd(4):kind==1?rndu():kind==2?(rnd(2)?rndu():0):(double)rnd(2); T[i]=v; } if(rnd(3)==0) for(int l=0,a=rnd(n),b=rnd(n);l<L;++l) T[a*L+l]=T[b*L+l]; if(rnd(4)==0) for(int l=0,a=rnd(n);l<L;++l) T[a*L+l]=0;
  for(int i=0;i<n*L;++i) tot+=T[i]; if(tot==0){ T[0]=1; tot=1; } for(int i=0;i<n*L;++i) ctx_add(" %.17g",T[i]); for(int i=0;i<n*L;++i) P[i]=T[i]/tot;
  VlAIB*q=vl_aib_new(T,n,L); CHECK(vl_aib_get_verbosity(q)==0,"verbosity"); vl_aib_process(q); vl_uint*pa=vl_aib_get_parents(q); double*co=vl_aib_get_costs(q);
  int alive[64],na=n; for(int i=0;i<2*n;++i) alive[i]=i<n; double*pc=xmalloc(8*L); for(int l=0;l<L;++l){ pc[l]=0; for(int i=0;i<n;++i) pc[l]+=P[i*L+l]; }
  #define INFO(nodes) ({ double s=0; for(int v=0;v<(nodes);++v) if(alive[v]){ double m=mass(P+v*L); for(int l=0;l<L;++l) if(P[v*L+l]>0) s+=P[v*L+l]*log(P[v*L+l]/(m*pc[l])); } s; })
  double I0=INFO(n); CHECK(fabs(co[0]-I0)<1e-9*(1+fabs(I0)),"initial information %.12g, should be %.12g",co[0],I0);
  int pos=0; for(int v=0;v<n;++v) pos+=mass(P+v*L)>0; int merges=pos-1, deg[64]={0};
  for(int v=0;v<2*n-1;++v){ int used=v<n||v<n+merges; if(!used) CHECK(pa[v]==(vl_uint)(2*n),"node %d was never created, its parent is %u",v,pa[v]); }
  for(int s=0;s<merges;++s){ int w=n+s,a=-1,b=-1; for(int v=0;v<w;++v) if(pa[v]==(vl_uint)w){ if(a<0) a=v; else if(b<0) b=v; else CHECK(0,"node %d has more than two children",w); } CHECK(b>=0,"node %d has less than two children",w); CHECK(alive[a]&&alive[b],"merge %d joins nodes %d and %d, one of which was merged before",s,a,b);
    double best=INFINITY; for(int v=0;v<w;++v) if(alive[v]&&mass(P+v*L)>0) for(int u=0;u<v;++u) if(alive[u]&&mass(P+u*L)>0){ double x=loss(P+u*L,P+v*L); if(x<best) best=x; } double got=loss(P+a*L,P+b*L); CHECK(mass(P+a*L)>0&&mass(P+b*L)>0,"merge %d joins an entry of probability zero",s); CHECK(got<=best+1e-10,"merge %d joins %d and %d, which loses %.12g; the best pair loses %.12g",s,a,b,got,best);
    for(int l=0;l<L;++l) P[w*L+l]=P[a*L+l]+P[b*L+l]; alive[a]=alive[b]=0; alive[w]=1; double In=INFO(w+1); CHECK(fabs(co[s+1]-In)<1e-9*(1+fabs(In)),"information after merge %d is %.12g, should be %.12g",s,co[s+1],In); }
  for(int s=merges;s<n-1;++s) CHECK(isnan(co[s+1]),"cost %d of a merge that did not happen is %g",s+1,co[s+1]);
  if(merges>0) CHECK(pa[n+merges-1]==0,"root has parent %u",pa[n+merges-1]); for(int v=0;v<n;++v) if(!(mass(P+v*L)>0)) CHECK(pa[v]==(vl_uint)(2*n),"value %d of probability zero has parent %u",v,pa[v]);
  /* what is left in the structure: entries of the final partition */
  double left=0; for(unsigned e=0;e<q->nentries;++e){ double m=0; for(int l=0;l<L;++l) m+=q->Pcx[e*L+l]; CHECK(fabs(m-q->Px[e])<1e-12,"entry %u: probability %.17g, joint adds up to %.17g",e,q->Px[e],m); left+=m; } CHECK(fabs(left-1)<1e-9&&(int)q->nentries==n-merges,"probabilities add up to %.12g over %u entries",left,q->nentries);
  vl_aib_delete(q); free(T); free(P); free(pc); (void)na; (void)deg; CASE(); }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t) one(); return orc_end(); }
