#include "orc.h"
#include <vl/ikmeans.h>
#include <vl/hikmeans.h>
static int M; static long dist(vl_ikmacc_t const*c,vl_uint8 const*x){ long s=0; for(int i=0;i<M;++i){ long d=(long)x[i]-c[i]; s+=d*d; } return s; }
static int nearest(vl_ikmacc_t const*C,int K,vl_uint8 const*x){ int b=-1; for(int k=0;k<K;++k) if(b<0||dist(C+k*M,x)<dist(C+b*M,x)) b=k; return b; }
static void check_push(char const*who,VlIKMFilt*f,vl_uint8 const*X,int N){ int K=(int)vl_ikm_get_K(f); vl_ikmacc_t const*C=vl_ikm_get_centers(f); vl_uint32*q=xmalloc(4*N); memset(q,0xee,4*N); vl_ikm_push(f,q,X,N); for(int j=0;j<N;++j){ int b=nearest(C,K,X+j*M); CHECK((int)q[j]==b,"%s: point %d goes to centre %d (squared distance %ld), nearest is %d (%ld)",who,j,(int)q[j],q[j]<(unsigned)K?dist(C+q[j]*M,X+j*M):-1,b,dist(C+b*M,X+j*M)); int o=(int)vl_ikm_push_one(C,X+j*M,M,K); CHECK(o==b,"%s: push_one of point %d gives %d, nearest is %d",who,j,o,b); } free(q); }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t){ M=1+rnd(rnd(4)?5:20); int K=1+rnd(7),N=1+rnd(20),small=rnd(3); vl_uint8*X=xmalloc(N*M),*Y=xmalloc(40*M); vl_ikmacc_t*C=xmalloc(K*M*sizeof*C); for(int i=0;i<N*M;++i) X[i]=small==0?rnd(256):small==1?rnd(3):(rnd(2)?250+rnd(6):rnd(4)); for(int i=0;i<40*M;++i) Y[i]=small==1?rnd(4):rnd(256); for(int i=0;i<K*M;++i) C[i]=small==1?rnd(3):rnd(256);
  int meth=rnd(2)?VL_IKM_ELKAN:VL_IKM_LLOYD,seed=rnd(1000000); vl_rand_seed(vl_get_rand(),seed); CTX("%s dim %d, %d points, %d centres, seed %d; points",meth==VL_IKM_ELKAN?"elkan":"lloyd",M,N,K,seed); for(int i=0;i<N*M&&i<60;++i) ctx_add(" %d",X[i]); ctx_add(" centres"); for(int i=0;i<K*M&&i<40;++i) ctx_add(" %d",(int)C[i]);
  VlIKMFilt*f=vl_ikm_new(meth); CHECK(vl_ikm_get_max_niters(f)==200,"default iterations"); vl_ikm_init(f,C,M,K); CHECK(!memcmp(vl_ikm_get_centers(f),C,K*M*sizeof*C)&&(int)vl_ikm_get_ndims(f)==M&&(int)vl_ikm_get_K(f)==K,"the centres are not those given"); check_push("given centres",f,X,N); check_push("given centres, new points",f,Y,40);
  int iters=rnd(3)?200:rnd(4); vl_ikm_set_max_niters(f,iters); int e=vl_ikm_train(f,X,N); CHECK(e==0,"training failed"); check_push("after training",f,X,N); check_push("after training, new points",f,Y,40);
  if(meth==VL_IKM_LLOYD&&iters==200){ vl_uint32*q=xmalloc(4*N); vl_ikm_push(f,q,X,N); vl_ikmacc_t const*R=vl_ikm_get_centers(f); for(int k=0;k<K;++k){ int n=0; for(int j=0;j<N;++j) n+=(int)q[j]==k; if(n) for(int i=0;i<M;++i){ long s=0; for(int j=0;j<N;++j) if((int)q[j]==k) s+=X[j*M+i]; CHECK(R[k*M+i]==s/n,"centre %d coordinate %d is %d, the mean of its points is %ld",k,i,(int)R[k*M+i],s/n); } } free(q); }
  if(N>=K){ vl_ikm_init_rand_data(f,X,M,N,K); vl_ikmacc_t const*R=vl_ikm_get_centers(f); int distinct=0; for(int i=0;i<N;++i){ int nw=1; for(int j=0;j<i;++j) if(!memcmp(X+i*M,X+j*M,M)) nw=0; distinct+=nw; } for(int k=0;k<K;++k){ int ok=0; for(int j=0;j<N;++j) ok|=dist(R+k*M,X+j*M)==0; CHECK(ok,"random centre %d is not a data point",k); if(distinct==N) for(int l=0;l<k;++l) CHECK(memcmp(R+k*M,R+l*M,M*sizeof*R),"random centres %d and %d coincide",k,l); } vl_ikm_train(f,X,N); check_push("trained from data",f,Y,40); }
  vl_ikm_delete(f);
  /* direct quantisation, sometimes with very many centres */
  { int big=rnd(400)==0,K4=big?65536+rnd(6000):K; vl_ikmacc_t*B=big?calloc(K4*M,sizeof*B):C; if(big) for(int i=0;i<M;++i) B[(K4-1-rnd(3))*M+i]=X[i]; for(int j=0;j<(big?1:N);++j){ unsigned q=vl_ikm_push_one(B,X+j*M,M,K4); int b=nearest(B,K4,X+j*M); CHECK((int)q==b,"vl_ikm_push_one among %d centres: point %d goes to %u, nearest is %d",K4,j,q,b); } if(big) free(B); }
  /* tree */
  int depth=1+rnd(3),K2=1+rnd(4); VlHIKMTree*h=vl_hikm_new(meth); vl_hikm_init(h,M,K2,depth); vl_hikm_set_max_niters(h,rnd(2)?200:2); vl_hikm_train(h,X,N); CHECK((int)vl_hikm_get_ndims(h)==M&&(int)vl_hikm_get_K(h)==K2&&(int)vl_hikm_get_depth(h)==depth,"tree geometry"); ctx_add(" tree K %d depth %d",K2,depth);
  for(int w=0;w<2;++w){ vl_uint8*P=w?Y:X; int n=w?40:N; vl_uint32*q=xmalloc(4*n*depth); memset(q,0xee,4*n*depth); vl_hikm_push(h,q,P,n); for(int j=0;j<n;++j){ VlHIKMNode const*nd=vl_hikm_get_root(h); int d=0; while(nd){ int K3=(int)vl_ikm_get_K(nd->filter); if(!K3) break; int b=nearest(vl_ikm_get_centers(nd->filter),K3,P+j*M); CHECK((int)q[j*depth+d]==b,"point %d level %d: goes to child %u, the nearest is %d",j,d,q[j*depth+d],b); CHECK(d<depth,"the tree is deeper than %d",depth); ++d; if(!nd->children) break; nd=nd->children[b]; } if(!w) CHECK(d==depth,"the path of training point %d ends at level %d",j,d); } free(q); }
  vl_hikm_delete(h); free(X);free(Y);free(C); CASE(); } return orc_end(); }
