#include "orc.h"
#include <vl/kmeans.h>
void vl_kmeans_quantize_ann(VlKMeans*,vl_uint32*,void*,void const*,vl_size,vl_bool);
static int N,D,K,F,L1; static void*X,*C; static double*x,*c;
static void put(void*p,int i,double v){ if(F) ((float*)p)[i]=(float)v; else ((double*)p)[i]=v; }
static double get(void const*p,int i){ return F?((float const*)p)[i]:((double const*)p)[i]; }
static double dist(double const*a,double const*b){ double s=0; for(int d=0;d<D;++d){ double z=a[d]-b[d]; s+=L1?fabs(z):z*z; } return s; }
static double EPS(void){ return F?1e-4:1e-9; }
static void check_quantized(char const*who,vl_uint32 const*q,void const*e,double const*cc){ for(int i=0;i<N;++i){ CHECK((int)q[i]<K,"%s: point %d is assigned to centre %u of %d",who,i,q[i],K); double m=1e300; for(int k=0;k<K;++k) m=fmin(m,dist(x+i*D,cc+k*D)); double g=dist(x+i*D,cc+q[i]*D); CHECK(g<=m+EPS()*(1+m),"%s: point %d is at %.9g from its centre, the closest is at %.9g",who,i,g,m); if(e) CHECK(fabs(get(e,i)-g)<=EPS()*(1+g),"%s: point %d: distance %.9g, should be %.9g",who,i,get(e,i),g); } }
static int cmpd(const void*a,const void*b){ double u=*(double*)a,v=*(double*)b; return u<v?-1:u>v; }
/* one exact step: assignments, then centres; returns 0 when a tie makes the result ambiguous; empty clusters are marked */
static int step(double*cc,int*q,int*cnt){ for(int i=0;i<N;++i){ double m=1e300,m2=1e300; for(int k=0;k<K;++k){ double v=dist(x+i*D,cc+k*D); if(v<m){ m2=m; m=v; q[i]=k; } else if(v<m2) m2=v; } if(m2-m<(F?1e-3:1e-7)*(1+m)) return 0; }
  memset(cnt,0,K*sizeof*cnt); for(int i=0;i<N;++i) cnt[q[i]]++;
  for(int k=0;k<K;++k) if(cnt[k]) for(int d=0;d<D;++d){ if(!L1){ double s=0; for(int i=0;i<N;++i) if(q[i]==k) s+=x[i*D+d]; cc[k*D+d]=s/cnt[k]; } else { double*v=xmalloc(N*sizeof*v); int m=0; for(int i=0;i<N;++i) if(q[i]==k) v[m++]=x[i*D+d]; qsort(v,m,sizeof*v,cmpd); cc[k*D+d]=v[(m-1)/2]; free(v); } }
  return 1; }
static double energy(double const*cc){ double s=0; for(int i=0;i<N;++i){ double m=1e300; for(int k=0;k<K;++k) m=fmin(m,dist(x+i*D,cc+k*D)); s+=m; } return s; }
static int is_point(double const*p){ for(int i=0;i<N;++i){ int ok=1; for(int d=0;d<D;++d) if(x[i*D+d]!=p[d]) ok=0; if(ok) return 1; } return 0; }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t){ F=rnd(2); L1=rnd(2); D=1+rnd(rnd(4)?4:19); K=1+rnd(6); N=K+rnd(15); int kind=rnd(4),far=rnd(4)==0; size_t z=F?4:8; X=xmalloc(N*D*z); C=xmalloc(K*D*z); x=xmalloc(N*D*8); c=xmalloc(K*D*8);
  for(int i=0;i<N*D;++i){ put(X,i,kind==0?rndi(-3,3):kind==1?10*rndu()-5:kind==2?rndi(-50,50)/8.0:rndi(0,1)); x[i]=get(X,i); } for(int i=0;i<K*D;++i){ put(C,i,(far&&i>=(K-1)*D)?100+rndi(0,9):rnd(3)?10*rndu()-5:x[rnd(N*D)]); c[i]=get(C,i); }
  int alg=rnd(3),m=1+rnd(4),dup=rnd(3)==0; if(dup) for(int i=1;i<N;++i) if(rnd(2)){ int j=rnd(i); memcpy((char*)X+i*D*z,(char*)X+j*D*z,D*z); memcpy(x+i*D,x+j*D,D*8); }
  CTX("%s %s algorithm %d iterations %d: %d points dim %d, %d centres; data",F?"float":"double",L1?"L1":"L2",alg,m,N,D,K); for(int i=0;i<N*D&&i<60;++i) ctx_add(" %.9g",x[i]); ctx_add(" centres"); for(int i=0;i<K*D&&i<30;++i) ctx_add(" %.9g",c[i]);
  VlKMeans*km=vl_kmeans_new(F?VL_TYPE_FLOAT:VL_TYPE_DOUBLE,L1?VlDistanceL1:VlDistanceL2); vl_kmeans_set_centers(km,C,D,K); CHECK((int)vl_kmeans_get_num_centers(km)==K&&(int)vl_kmeans_get_dimension(km)==D&&!memcmp(vl_kmeans_get_centers(km),C,K*D*z),"the centres are not those set");
  vl_uint32*q=xmalloc(N*4); void*e=xmalloc(N*z); memset(q,0xff,N*4); vl_kmeans_quantize(km,q,e,X,N); check_quantized("quantize",q,e,c); memset(q,0xff,N*4); vl_kmeans_quantize(km,q,0,X,N); check_quantized("quantize without distances",q,0,c);
  vl_kmeans_set_max_num_comparisons(km,0); memset(q,0xff,N*4); vl_kmeans_quantize_ann(km,q,e,X,N,0); check_quantized("quantize_ann",q,e,c); for(int i=0;i<N;++i) q[i]=rnd(K); vl_kmeans_quantize_ann(km,q,e,X,N,1); check_quantized("quantize_ann update",q,e,c); memset(q,0xff,N*4); vl_kmeans_quantize_ann(km,q,0,X,N,0); check_quantized("quantize_ann without distances",q,0,c);
  VlKMeans*cp=vl_kmeans_new_copy(km); CHECK(!memcmp(vl_kmeans_get_centers(cp),C,K*D*z),"copy has other centres"); memset(q,0xff,N*4); vl_kmeans_quantize(cp,q,e,X,N); check_quantized("quantize of a copy",q,e,c); vl_kmeans_delete(cp);
  /* refinement: exact steps */
  vl_kmeans_set_algorithm(km,alg==0?VlKMeansLloyd:alg==1?VlKMeansElkan:VlKMeansANN); vl_kmeans_set_max_num_iterations(km,m); vl_kmeans_set_min_energy_variation(km,0); double ret=vl_kmeans_refine_centers(km,X,N); void const*R=vl_kmeans_get_centers(km); double*r=xmalloc(K*D*8); for(int i=0;i<K*D;++i) r[i]=get(R,i);
  double want=energy(r); CHECK(fabs(want-ret)<=(F?1e-3:1e-8)*(1+want),"the returned energy is %.9g, the centres have %.9g",ret,want);
  { double*cc=xmalloc(K*D*8); int*aq=xmalloc(N*4),*cnt=xmalloc(K*4); memcpy(cc,c,K*D*8); int ok=1,empty=0; double pe=-1; for(int s=0;s<m&&ok&&!empty;++s){ double en=energy(cc); if(en==pe&&alg!=1) break; pe=en; ok=step(cc,aq,cnt); if(ok) for(int k=0;k<K;++k) if(!cnt[k]){ empty=1; if(s==m-1) CHECK(is_point(r+k*D),"restarted centre %d is not a data point",k); else ok=0; } if(ok&&F) for(int i=0;i<K*D;++i) cc[i]=(float)cc[i]; }
    if(ok) for(int k=0;k<K;++k) if(cnt[k]) for(int d=0;d<D;++d) CHECK(fabs(r[k*D+d]-cc[k*D+d])<=(F?1e-4:1e-9)*(1+fabs(cc[k*D+d])),"centre %d coordinate %d is %.9g, the %s of its points is %.9g",k,d,r[k*D+d],L1?"median":"mean",cc[k*D+d]);
    free(cc);free(aq);free(cnt); }
  vl_rand_seed(vl_get_rand(),rnd(100000)); 
  /* seeding */
  { int distinct=0; for(int i=0;i<N;++i){ int nw=1; for(int j=0;j<i;++j) if(dist(x+i*D,x+j*D)==0) nw=0; distinct+=nw; } for(int w=0;w<2;++w){ if(w) vl_kmeans_init_centers_plus_plus(km,X,D,N,K); else vl_kmeans_init_centers_with_rand_data(km,X,D,N,K); R=vl_kmeans_get_centers(km); for(int i=0;i<K*D;++i) r[i]=get(R,i); for(int k=0;k<K;++k) CHECK(is_point(r+k*D),"%s: centre %d is not a data point",w?"plus plus":"random",k);
     if(!w&&distinct==N) for(int k=0;k<K;++k) for(int j=0;j<k;++j) CHECK(dist(r+k*D,r+j*D)>0,"random seeding repeats a point"); if(w&&distinct>=K&&!F&&kind!=1) for(int k=0;k<K;++k) for(int j=0;j<k;++j) CHECK(dist(r+k*D,r+j*D)>0,"plus plus seeding repeats a point"); } }
  vl_kmeans_set_max_num_iterations(km,1+rnd(10)); vl_kmeans_set_num_repetitions(km,1+rnd(3)); vl_kmeans_set_initialization(km,rnd(2)?VlKMeansPlusPlus:VlKMeansRandomSelection); ret=vl_kmeans_cluster(km,X,D,N,K); R=vl_kmeans_get_centers(km); for(int i=0;i<K*D;++i) r[i]=get(R,i); want=energy(r); CHECK(fabs(want-ret)<=(F?1e-3:1e-8)*(1+want),"clustering returns energy %.9g, the centres have %.9g",ret,want);
  free(r);free(q);free(e);free(X);free(C);free(x);free(c); vl_kmeans_delete(km); CASE(); } return orc_end(); }
