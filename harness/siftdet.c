/* vl_sift_detect on arbitrary scale spaces (ties, plateaus, spikes, thresholds hit exactly): the octave is overwritten before the detection */
#include "orc.h"
#include <vl/sift.h>
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long q=0;q<it;++q){ int om=rnd(4)?0:rndi(-1,1),S=1+rnd(3),e=rnd(5); int W=e?4+rnd(4):4+rnd(14),H=e?4+rnd(4):4+rnd(14); if(om>0){ W*=2; H*=2; } if(q%20000==77){ W=100+rnd(100); H=100+rnd(100); om=0; } VlSiftFilt*f=vl_sift_new(W,H,1,S,om); double s0=1.6*pow(2,1./S); float*I=xmalloc(4*W*H); memset(I,0,4*W*H); vl_sift_process_first_octave(f,I); int o=om,w=vl_sift_get_octave_width(f),h=vl_sift_get_octave_height(f),A=w*h; double xp=pow(2,o);
  for(int rep=0;rep<3;++rep){ double te=rnd(3)?1+rndu()*20:1e9,tp=rnd(3)?0:rnd(4)*1.25; int kind=rnd(5); double u=1; 
   /* the differences, level by level */
   float*B=xmalloc(4*A*(S+2)); double pk=kind==3?6:2; for(int i=0;i<A*(S+2);++i) B[i]=kind==0?rndi(-3,3):kind==1?(rnd(6)?0:rndi(-4,4)):kind==2?rndi(-40,40)/8.:kind==3?rint(64*pow(rndu(),pk)*(rnd(2)?8:-8))/64:rndi(-900,900)/64.;
   if(kind==4||rnd(3)==0) for(int r=1+rnd(3);r--;){ int x=1+rnd(w-2),y=1+rnd(h-2),s=1+rnd(S); double d[3]={rndu()*3-1.5,rndu()*3-1.5,rndu()*3-1.5},k[3]={rndu(),rndu(),rndu()},c=rndu()*4-2,sg=rnd(2)?10:-10; for(int ds=-1;ds<2;++ds) for(int dy=-1;dy<2;++dy) for(int dx=-1;dx<2;++dx){ double a=dx-d[0],b=dy-d[1],g=ds-d[2]; B[(s+ds)*A+(y+dy)*w+x+dx]=rint(256*sg*(1-.3*k[0]*a*a-.3*k[1]*b*b-.3*k[2]*g*g-.1*c*k[0]*a*b))/256; } }
   for(int i=0;i<A*(S+2)&&kind>=2;++i) B[i]=rint(B[i]*u*256)/256; float*L=vl_sift_get_octave(f,-1); for(int i=0;i<A;++i) L[i]=rndi(-8,8); for(int s=0;s<=S+1;++s){ float*a=vl_sift_get_octave(f,s-1),*b=vl_sift_get_octave(f,s); for(int i=0;i<A;++i) b[i]=a[i]+B[s*A+i]; }
   CTX("octave %d of %dx%d with %d levels, thresholds %g %g; samples that differ from 0 (index:difference of the levels)",o,w,h,S,tp,te); for(int i=0,k=0;i<A*(S+2)&&k<40;++i) if(B[i]){ ctx_add(" %d:%.9g",i,B[i]); ++k; }
   vl_sift_set_peak_thresh(f,tp); vl_sift_set_edge_thresh(f,te); vl_sift_detect(f); float*D=f->dog; for(int i=0;i<A*(S+2);++i) CHECK(D[i]==B[i],"difference %d is %g instead of %g",i,D[i],B[i]);
   VlSiftKeypoint const*K=vl_sift_get_keypoints(f); int n=vl_sift_get_nkeypoints(f),c=0,risky=0;
   for(int s=0;s<=S-1&&!risky;++s) for(int y=1;y<h-1&&!risky;++y) for(int x=1;x<w-1;++x){ float*p=D+(s+1)*A+y*w+x,v=*p; int mx=v>=.8*tp,mi=v<=-.8*tp; for(int ds=-1;ds<2;++ds) for(int dy=-1;dy<2;++dy) for(int dx=-1;dx<2;++dx) if(ds||dy||dx){ float z=p[ds*A+dy*w+dx]; if(z>=v) mx=0; if(z<=v) mi=0; } if(!mx&&!mi) continue;
    int X=x,Y=y,dx=0,dy=0,bad=0; double b[3],g[3],M[3][3],val,score; for(int t=0;t<5;++t){ X+=dx; Y+=dy; p=D+(s+1)*A+Y*w+X; int st[3]={1,w,A}; for(int i=0;i<3;++i){ g[i]=.5*((double)p[st[i]]-p[-st[i]]); for(int j=0;j<3;++j) M[i][j]=i==j?(double)p[st[i]]+p[-st[i]]-2.*p[0]:.25*((double)p[st[i]+st[j]]+p[-st[i]-st[j]]-p[st[i]-st[j]]-p[st[j]-st[i]]); }
     double big=0,det=0; for(int i=0;i<9;++i) big=fmax(big,fabs(M[0][i])); for(int i=0;i<3;++i) det+=M[0][i]*(M[1][(i+1)%3]*M[2][(i+2)%3]-M[1][(i+2)%3]*M[2][(i+1)%3]); if(fabs(det)<1e-6*big*big*big||big<1e-3){ bad=1; break; }
     for(int i=0;i<3;++i){ double N[3][3],m=0; memcpy(N,M,sizeof N); for(int j=0;j<3;++j) N[j][i]=-g[j]; for(int j=0;j<3;++j) m+=N[0][j]*(N[1][(j+1)%3]*N[2][(j+2)%3]-N[1][(j+2)%3]*N[2][(j+1)%3]); b[i]=m/det; }
     for(int i=0;i<2;++i) if(fabs(fabs(b[i])-.6)<1e-6) bad=1; dx=b[0]>.6&&X<w-2?1:b[0]<-.6&&X>1?-1:0; dy=b[1]>.6&&Y<h-2?1:b[1]<-.6&&Y>1?-1:0; if(!dx&&!dy) break; }
    if(bad){ risky=1; break; }
    val=p[0]+.5*(g[0]*b[0]+g[1]*b[1]+g[2]*b[2]); double tr=M[0][0]+M[1][1],dt=M[0][0]*M[1][1]-M[0][1]*M[1][0],lim=(te+1)*(te+1)/te,xn=X+b[0],yn=Y+b[1],sn=s+b[2]; score=tr*tr/dt;
    if(fabs(fabs(val)-tp)<1e-6||fabs(score-lim)<1e-6*lim||fabs(dt)<1e-9||fabs(score)<1e-9) risky=1; for(int i=0;i<3;++i) if(fabs(fabs(b[i])-1.5)<1e-6) risky=1; if(fabs(xn)<1e-6||fabs(yn)<1e-6||fabs(xn-w+1)<1e-6||fabs(yn-h+1)<1e-6||fabs(sn+1)<1e-6||fabs(sn-S-1)<1e-6) risky=1; if(risky) break;
    int good=fabs(val)>tp&&score<lim&&score>=0&&fabs(b[0])<1.5&&fabs(b[1])<1.5&&fabs(b[2])<1.5&&xn>=0&&xn<=w-1&&yn>=0&&yn<=h-1&&sn>=-1&&sn<=S+1; if(!good) continue;
    CHECK(c<n,"the extremum at %d,%d,%d is missing (refined to %g,%g,%g, value %g, score %g)",x,y,s,xn,yn,sn,val,score); VlSiftKeypoint const*z=K+c++; CHECK(z->o==o&&z->ix==X&&z->iy==Y&&z->is==s&&fabs(z->x-xn*xp)<1e-3*xp&&fabs(z->y-yn*xp)<1e-3*xp&&fabs(z->s-sn)<1e-3,"keypoint %d is at %g,%g,%g (%d,%d,%d) instead of %g,%g,%g (%d,%d,%d)",c-1,z->x,z->y,z->s,z->ix,z->iy,z->is,xn*xp,yn*xp,sn,X,Y,s); CHECK(fabs(z->sigma/(s0*pow(2,sn/S)*xp)-1)<1e-4,"keypoint %d sigma %g",c-1,z->sigma); }
   if(!risky) CHECK(c==n,"%d keypoints, but %d extrema pass the thresholds; the last keypoint is at %d,%d,%d",n,c,n?K[n-1].ix:0,n?K[n-1].iy:0,n?K[n-1].is:0);
   free(B); CASE(); } free(I); vl_sift_delete(f); } return orc_end(); }
