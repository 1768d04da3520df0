#include "orc.h"
#include <vl/svm.c>
static int const L_[5]={VlSvmLossHinge,VlSvmLossHinge2,VlSvmLossL1,VlSvmLossL2,VlSvmLossLogistic};
static double loss(int l,double z,double y){ double m=1-y*z; if(m<0) m=0; switch(l){ case 0: return m; case 1: return m*m; case 2: return fabs(y-z); case 3: return (y-z)*(y-z); default: return y*z>0?log1p(exp(-y*z)):-y*z+log1p(exp(y*z)); } }
static double xl(double x){ return x>0?x*log(x):0; }
static double conj_(int l,double u,double y){ double z=y*u,e=1e-9; switch(l){ case 0: return z>=-1-e&&z<=e?z:INFINITY; case 1: return z<=e?z+u*u/4:INFINITY; case 2: return fabs(u)<=1+e?y*u:INFINITY; case 3: return y*u+u*u/4; default: return z>=-1-e&&z<=e?xl(-z)+xl(1+z):INFINITY; } }
static double dloss(int l,double z,double y){ switch(l){ case 0: return y*z<1?-y:0; case 1: return y*z<1?2*(z-y):0; case 2: return y>z?-1:1; case 3: return 2*(z-y); default: return -y/(1+exp(y*z)); } }
static int close_(double a,double b,double tol){ return a==b||fabs(a-b)<=tol*(1+fabs(a)+fabs(b)); }
static VlSvmLossFunction lf,ld,lc; static VlSvmDcaUpdateFunction lu;
static void pick(int l){ VlSvm s; memset(&s,0,sizeof s); vl_svm_set_loss(&s,L_[l]); lf=s.lossFn; ld=s.lossDerivativeFn; lc=s.conjugateLossFn; lu=s.dcaUpdateFn; }
static void scalars(void){ int l=rnd(5); double y=l==2||l==3?rndi(-3,3)/2.+(rnd(2)?rndu():0):rnd(2)?1:-1,z=rndd(),A=rnd(2)?rndu()+1e-3:ldexp(1+rndu(),rndi(-8,8)),al,u; if(rnd(4)==0&&(l<2||l==4)) z=y; else if(rnd(4)==0) z=y; z=fmax(-1e4,fmin(1e4,z)); pick(l);
  CTX("loss %d inner %.17g label %.17g",l,z,y); CHECK(close_(lf(z,y),loss(l,z,y),1e-9),"loss is %.17g, should be %.17g",lf(z,y),loss(l,z,y));
  { double g=ld(z,y); for(int k=0;k<6;++k){ double w=z+ldexp(2*rndu()-1,rndi(-6,4)); CHECK(loss(l,w,y)>=loss(l,z,y)+g*(w-z)-1e-9*(1+fabs(loss(l,w,y))+fabs(g*(w-z))),"derivative %.17g does not support the loss at %.17g",g,w); } if(l==3||l==4||l==1) CHECK(close_(g,dloss(l,z,y),1e-9),"derivative is %.17g, should be %.17g",g,dloss(l,z,y)); }
  u=rnd(3)?y*-rndu():rndd(); if(rnd(8)==0) u=y*-rnd(2); CTX("loss %d conjugate at %.17g label %.17g",l,u,y); { double e=conj_(l,u,y),g=lc(u,y); CHECK(close_(g,e,1e-8)||(l==4&&fabs(g-e)<1e-8)||fabs(y*u)<1e-8||fabs(1+y*u)<1e-8,"conjugate is %.17g, should be %.17g",g,e); if(isfinite(g)) for(int k=0;k<6;++k){ double w=ldexp(2*rndu()-1,rndi(-6,8)); CHECK(u*w-loss(l,w,y)<=g+1e-8*(1+fabs(u*w)+fabs(g)),"conjugate %.17g is below u z - loss at %.17g",g,w); } }
  al=l==2?2*rndu()-1:l==3?rndd():l==1?y*fabs(rndd()):y*rndu(); if(rnd(6)==0) al=l==3?0:y*rnd(2); if(l==2&&fabs(al)>1) al=1; al=fmax(-1e4,fmin(1e4,al)); CTX("loss %d update alpha %.17g inner %.17g norm2 %.17g label %.17g",l,al,z,A,y); 
  { double r=lu(al,z,A,y),D=-A/2*r*r-z*r-conj_(l,-al-r,y),sc=1+A/2*r*r+fabs(z*r)+fabs(al); CHECK(isfinite(D),"update %.17g leaves the domain of the dual variable",r); for(int k=0;k<24;++k){ double d=k<8?(k-4)*.25-al:k<16?r+ldexp(2*rndu()-1,-k/2):l==3||l==1?rndd():y*rndu()-al; double E=-A/2*d*d-z*d-conj_(l,-al-d,y); double tol=l==4?2e-2*(1+fabs(A)*.1+.05*fabs(z)):1e-8*sc; if(l==4&&(fabs(z)>20||A>50)) continue; CHECK(!(E>D+tol),"dual increases by %.3g at step %.17g over the returned step %.17g",E-D,d,r); } } CASE(); }
static double lu_(int l,double a,double in,double n2,double y){ pick(l); return lu(a,in,n2,y); }
static int diags; static VlSvmStatistics last; static void diag(VlSvm*s,void*d){ diags++; last=*vl_svm_get_statistics(s); (void)d; }
static void train(void){ int n=1+rnd(12),d=1+rnd(5),l=rnd(5),solver=rnd(5)==0?VlSvmSolverNone:rnd(2)?VlSvmSolverSdca:VlSvmSolverSgd,fl=rnd(2),hom=rnd(4)==0,wt=rnd(2); double lam=rnd(2)?.01+rndu():ldexp(1,-rndi(0,7)),B=rnd(4)?rnd(3):rndu()*10,blr=rnd(2)?1:.05+rndu()*.5; int fr=rnd(2)?n:1+rnd(2*n),mi=fr+rnd(60); vl_uint32 seed=rnd(100000); double eps=rnd(2)?0:.05;
  double*y=xmalloc(8*n),*w=xmalloc(8*n),*X; void*raw=xmalloc(8*n*d); for(int i=0;i<n*d;++i){ double v=rnd(6)?2*rndu()-1:rndi(-2,2); if(hom) v=fabs(v); if(fl) ((float*)raw)[i]=v; else ((double*)raw)[i]=v; } for(int i=0;i<n;++i){ y[i]=l==2||l==3?2*rndu()-1:rnd(2)?1:-1; w[i]=rnd(4)?ldexp(1,rndi(-2,2)):0; }
  CTX("solver %d loss %d data %d dim %d float %d hom %d weights %d lambda %.17g bias multiplier %.17g rate %.17g frequency %d iterations %d seed %u",solver,l,n,d,fl,hom,wt,lam,B,blr,fr,mi,seed); ctx_add(" x:"); for(int i=0;i<n*d;++i) ctx_add(" %.9g",fl?((float*)raw)[i]:((double*)raw)[i]); ctx_add(" y:"); for(int i=0;i<n;++i) ctx_add(" %.9g",y[i]); if(wt){ ctx_add(" w:"); for(int i=0;i<n;++i) ctx_add(" %.9g",w[i]); }
  VlSvmDataset*ds=vl_svmdataset_new(fl?VL_TYPE_FLOAT:VL_TYPE_DOUBLE,raw,d,n); VlHomogeneousKernelMap*hm=0; int hd=1; if(hom){ hm=vl_homogeneouskernelmap_new(VlHomogeneousKernelChi2,1,1+rnd(2),-1,VlHomogeneousKernelMapWindowRectangular); hd=vl_homogeneouskernelmap_get_dimension(hm); vl_svmdataset_set_homogeneous_kernel_map(ds,hm); }
  int D=d*hd; CHECK((int)vl_svmdataset_get_dimension(ds)==D&&(int)vl_svmdataset_get_num_data(ds)==n,"dataset dimension"); X=xmalloc(8*n*D); for(int i=0;i<n*d;++i){ if(!hom) X[i]=fl?((float*)raw)[i]:((double*)raw)[i]; else { float bf[16]; double bd[16]; if(fl){ vl_homogeneouskernelmap_evaluate_f(hm,bf,1,((float*)raw)[i]); for(int k=0;k<hd;++k) X[i*hd+k]=bf[k]; } else { vl_homogeneouskernelmap_evaluate_d(hm,bd,1,((double*)raw)[i]); for(int k=0;k<hd;++k) X[i*hd+k]=bd[k]; } } }
  VlSvm*s=vl_svm_new_with_dataset(solver,ds,y,lam); CHECK((int)vl_svm_get_dimension(s)==D&&(int)vl_svm_get_num_data(s)==n&&vl_svm_get_lambda(s)==lam&&vl_svm_get_solver(s)==(VlSvmSolverType)solver,"getters"); vl_svm_set_loss(s,L_[l]); vl_svm_set_bias_multiplier(s,B); vl_svm_set_bias_learning_rate(s,blr); vl_svm_set_diagnostic_frequency(s,fr); vl_svm_set_max_num_iterations(s,mi); vl_svm_set_epsilon(s,eps); if(wt) vl_svm_set_weights(s,w); diags=0; vl_svm_set_diagnostic_function(s,diag,0);
  double*W=xmalloc(8*D),b=0,*al=xmalloc(8*n),*sc=xmalloc(8*n),*ps=xmalloc(8*n),obj,gap=0,regz,lo,du=0; int risky=0,status=0; double big=0; for(int i=0;i<D;++i) W[i]=0; for(int i=0;i<n;++i){ al[i]=sc[i]=0; ps[i]=-INFINITY; }
  if(solver==VlSvmSolverNone||rnd(3)==0){ for(int i=0;i<D;++i) W[i]=2*rndu()-1; if(solver==VlSvmSolverSdca) for(int i=0;i<D;++i) W[i]=0; vl_svm_set_model(s,W); if(solver!=VlSvmSolverSdca&&B>0){ b=(2*rndu()-1)/B; vl_svm_set_bias(s,b*B); b=b*B/B; CHECK(close_(vl_svm_get_bias(s),b*B,1e-12),"bias is %.17g after setting %.17g",vl_svm_get_bias(s),b*B); } }
  vl_rand_seed(vl_get_rand(),seed); vl_svm_train(s);
  VlRand R; vl_rand_init(&R); vl_rand_seed(&R,seed); vl_index*pm=xmalloc(sizeof(vl_index)*n); for(int i=0;i<n;++i) pm[i]=i;
  int t0=(int)fmax(2,ceil(1/lam)),done=0; for(int t=0;!done;++t){ if(solver!=VlSvmSolverNone){ if(t%n==0) vl_rand_permute_indexes(&R,pm,n); int i=pm[t%n]; double p=wt?w[i]:1,in=b*B; for(int k=0;k<D;++k) in+=W[k]*X[i*D+k];
     if(solver==VlSvmSolverSdca){ double n2=B*B; for(int k=0;k<D;++k) n2+=X[i*D+k]*X[i*D+k]; if(p>0){ double de=p*lu_(l,al[i]/p,in,p*n2/(lam*n),y[i]); al[i]+=de; for(int k=0;k<D;++k) W[k]+=de/(lam*n)*X[i*D+k]; b+=B*de/(lam*n); } }
     else { double g=p*dloss(l,in,y[i]),r=1/(lam*(t+t0)),br=r*blr; if((l<2&&fabs(1-y[i]*in)<1e-7)||(l==2&&fabs(y[i]-in)<1e-7)) risky=1; ps[i]=sc[i]; sc[i]=in; for(int k=0;k<D;++k) W[k]=W[k]*(1-lam*r)-g*r*X[i*D+k]; b=b*(1-lam*br)-g*br*B; } }
    big=fmax(big,fabs(b)); for(int k=0;k<D;++k) big=fmax(big,fabs(W[k])); if(big>1e3) risky=1;
    if(solver==VlSvmSolverNone||(t+1)%fr==0||t+1==mi){ regz=b*b; lo=du=0; for(int k=0;k<D;++k) regz+=W[k]*W[k]; regz*=lam/2; double var=0; for(int i=0;i<n;++i){ double p=wt?w[i]:1,in=b*B; if(p>0){ for(int k=0;k<D;++k) in+=W[k]*X[i*D+k]; lo+=p*loss(l,in,y[i])/n; if(solver==VlSvmSolverSdca) du-=p*conj_(l,-al[i]/p,y[i])/n; } { double v=sc[i]-ps[i]; var+=v*v; } } obj=regz+lo; gap=obj-(du-regz); var=sqrt(var)/n; double m=solver==VlSvmSolverSdca?gap:var; if(fabs(m-eps)<1e-6) risky=1; status=VlSvmStatusTraining; if(m<eps||solver==VlSvmSolverNone) status=VlSvmStatusConverged; else if(t+1==mi) status=VlSvmStatusMaxNumIterationsReached; if(status!=VlSvmStatusTraining){ if(!risky){ CHECK(solver==VlSvmSolverNone||(int)last.iteration==t,"stopped at iteration %d, expected %d",(int)last.iteration,t); CHECK((int)last.status==status,"status %d, expected %d",last.status,status); } done=1; } } }
  if(!risky){ double tol=1e-6; for(int k=0;k<D;++k) CHECK(close_(vl_svm_get_model(s)[k],W[k],tol),"model component %d is %.12g, should be %.12g",k,vl_svm_get_model(s)[k],W[k]); CHECK(close_(vl_svm_get_bias(s),b*B,tol),"bias is %.12g, should be %.12g",vl_svm_get_bias(s),b*B);
    VlSvmStatistics const*q=vl_svm_get_statistics(s); CHECK(close_(q->regularizer,regz,tol)&&close_(q->loss,lo,tol)&&close_(q->objective,obj,tol),"regularizer %.12g loss %.12g objective %.12g should be %.12g %.12g %.12g",q->regularizer,q->loss,q->objective,regz,lo,obj); if(solver==VlSvmSolverSdca){ CHECK(close_(q->dualLoss,du,1e-5)&&close_(q->dualityGap,gap,1e-5)&&close_(q->dualObjective,du-regz,1e-5),"dual loss %.12g gap %.12g should be %.12g %.12g",q->dualLoss,q->dualityGap,du,gap); for(int i=0;i<n;++i) CHECK(close_(s->alpha[i],al[i],tol),"dual variable %d is %.12g, should be %.12g",i,s->alpha[i],al[i]); }
    for(int i=0;i<n;++i) if(!wt||w[i]>0){ double in=b*B; for(int k=0;k<D;++k) in+=W[k]*X[i*D+k]; CHECK(close_(vl_svm_get_scores(s)[i],in,tol),"score %d is %.12g, should be %.12g",i,vl_svm_get_scores(s)[i],in); }
    if(solver==VlSvmSolverSdca){ CHECK(q->dualityGap>-1e-7,"negative duality gap %.12g",q->dualityGap); for(int k=0;k<D;++k){ double e=0; for(int i=0;i<n;++i) e+=s->alpha[i]*X[i*D+k]/(lam*n); CHECK(close_(e,vl_svm_get_model(s)[k],1e-7),"model component %d is not the combination of the data by the dual variables",k); } } }
  vl_free(s->scores); s->scores=0; vl_svm_delete(s); vl_svmdataset_delete(ds); if(hm) vl_homogeneouskernelmap_delete(hm); free(X);free(raw);free(y);free(w);free(W);free(al);free(sc);free(ps);free(pm); CASE(); }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t) if(rnd(4)) scalars(); else train(); return orc_end(); }
