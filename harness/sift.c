#include "orc.h"
#include <vl/sift.h>
#include <vl/mathop.h>
static int clampi(int x,int n){ return x<0?0:x>=n?n-1:x; }
static double fexp(double x){ if(x>=25) return 0; x*=256/25.; int i=floor(x); double r=x-i,a=exp(-i*25/256.),b=exp(-(i+1)*25/256.); return a+r*(b-a); }
static void smooth(double*o,double const*I,int w,int h,double sd){ int R=ceil(4*sd); if(R<1) R=1; double*k=xmalloc(8*(2*R+1)),*t=xmalloc(8*w*h),acc=0; for(int j=-R;j<=R;++j) acc+=k[j+R]=exp(-.5*j*j/(sd*sd)); for(int y=0;y<h;++y) for(int x=0;x<w;++x){ double s=0; for(int j=-R;j<=R;++j) s+=k[j+R]*I[clampi(y+j,h)*w+x]; t[y*w+x]=s/acc; } for(int y=0;y<h;++y) for(int x=0;x<w;++x){ double s=0; for(int j=-R;j<=R;++j) s+=k[j+R]*t[y*w+clampi(x+j,w)]; o[y*w+x]=s/acc; } free(k); free(t); }
static double normalise(double*d){ double s=0; for(int i=0;i<128;++i) s+=d[i]*d[i]; s=sqrt(s)+VL_EPSILON_F; for(int i=0;i<128;++i) d[i]/=s; return s; }
/* G: modulus, angle pairs of a w x h level; border: skip the border pixels */
static double descr(double*d,double const*G,int w,int h,double x,double y,double sg,double a0,double magnif,double win,int border,int*num){ int xi=x+.5,yi=y+.5; double B=magnif*sg+VL_EPSILON_D,ct=cos(a0),st=sin(a0); int W=floor(sqrt(2.)*B*5/2+.5); memset(d,0,8*128); *num=0; for(int v=yi-W;v<=yi+W;++v) for(int u=xi-W;u<=xi+W;++u){ if(u<border||v<border||u>=w-border||v>=h-border) continue; ++*num; double th=fmod(G[2*(v*w+u)+1]-a0,2*M_PI); if(th<0) th+=2*M_PI; double dx=u-x,dy=v-y,nx=(ct*dx+st*dy)/B,ny=(-st*dx+ct*dy)/B,nt=8*th/(2*M_PI),wt=fexp((nx*nx+ny*ny)/(2*win*win))*G[2*(v*w+u)];
  for(int j=0;j<4;++j) for(int i=0;i<4;++i){ double wx=1-fabs(nx-(i-1.5)),wy=1-fabs(ny-(j-1.5)); if(wx<=0||wy<=0) continue; int t=floor(nt); double f=nt-t; d[(j*4+i)*8+t%8]+=wt*wx*wy*(1-f); d[(j*4+i)*8+(t+1)%8]+=wt*wx*wy*f; } }
 double n=normalise(d); for(int i=0;i<128;++i) if(d[i]>.2) d[i]=.2; normalise(d); return n; }
static int orient(double*an,double const*G,int w,int h,double x,double y,double sg,int*risky){ int xi=x+.5,yi=y+.5; double H[36],T[36],sw=1.5*sg,m=0; int W=floor(3*sw); if(W<1) W=1; memset(H,0,sizeof H); for(int v=yi-W;v<=yi+W;++v) for(int u=xi-W;u<=xi+W;++u){ if(u<0||v<0||u>=w||v>=h) continue; double r2=(u-x)*(u-x)+(v-y)*(v-y); if(r2>=W*W+.6) continue; double wt=fexp(r2/(2*sw*sw))*G[2*(v*w+u)],f=36*G[2*(v*w+u)+1]/(2*M_PI)-.5; int b=floor(f); f-=b; H[(b+36)%36]+=(1-f)*wt; H[(b+37)%36]+=f*wt; }
 for(int q=0;q<6;++q){ for(int i=0;i<36;++i) T[i]=(H[(i+35)%36]+H[i]+H[(i+1)%36])/3; memcpy(H,T,sizeof H); } for(int i=0;i<36;++i) if(H[i]>m) m=H[i]; int n=0; if(m<1e-6) *risky=1; for(int i=0;i<36;++i){ double a=H[(i+35)%36],b=H[i],c=H[(i+1)%36]; if(fabs(b-.8*m)<1e-4*m) *risky=1; if(b>.8*m&&(fabs(b-a)<1e-4*m||fabs(b-c)<1e-4*m)) *risky=1; if(b>.8*m&&b>a&&b>c&&n<4){ an[n++]=2*M_PI*(i-.5*(c-a)/(c+a-2*b)+.5)/36; } } return n; }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long q=0;q<it;++q){ int om=rndi(-1,1); if(rnd(8)==0) om=rnd(2)?-2:2; int W=(om>0?4<<om:4)+rnd(20),H=(om>0?4<<om:4)+rnd(20); if(om==-2){ W=4+rnd(8); H=4+rnd(8); } int S=1+rnd(4),O=rnd(4)?1+rnd(4):-1; int mn=W<H?W:H; if(O<0){ int l=floor(log(mn)/log(2)+1e-9)-om-3; if((om>0?mn>>om:mn<<-om)<4) O=1; else { VlSiftFilt*z=vl_sift_new(W,H,-1,S,om); CTX("image %dx%d first octave %d",W,H,om); CHECK(vl_sift_get_noctaves(z)==(l<1?1:l),"%d octaves",vl_sift_get_noctaves(z)); vl_sift_delete(z); O=-1; } } else while(O>1&&(om+O-1>0?mn>>(om+O-1):mn<<(1-om-O))<3) O--;
  VlSiftFilt*f=vl_sift_new(W,H,O,S,om); if(O<0) O=f->O; double tp=0,te=10,tn=0,mg=3,ws=2; double k=pow(2,1./S),s0=1.6*k; float*I=xmalloc(4*W*H); CHECK(f->O==O&&f->S==S&&vl_sift_get_octave_first(f)==om&&vl_sift_get_nlevels(f)==S,"parameters");
  for(int rep=0;rep<2;++rep){ if(rep&&rnd(2)) break; double sc=rnd(2)?1:255; if(rnd(2)) tp=rndu()*.02*sc; if(rnd(2)) te=1+rndu()*20; if(rnd(3)==0) tn=rndu()*sc*.5; if(rnd(3)==0) mg=1+rndu()*3; if(rnd(3)==0) ws=.5+2*rndu(); vl_sift_set_peak_thresh(f,tp);vl_sift_set_edge_thresh(f,te);vl_sift_set_norm_thresh(f,tn);vl_sift_set_magnif(f,mg);vl_sift_set_window_size(f,ws); CHECK(vl_sift_get_peak_thresh(f)==tp&&vl_sift_get_edge_thresh(f)==te&&vl_sift_get_norm_thresh(f)==tn&&vl_sift_get_magnif(f)==mg&&vl_sift_get_window_size(f)==ws,"thresholds");
   int kind=rnd(3); double bx=rndu()*W,by=rndu()*H,bs=1+3*rndu(); for(int i=0;i<W*H;++i){ double x=i%W-bx,y=i/W-by; I[i]=sc*(kind==0?rndu():kind==1?exp(-.5*(x*x+y*y)/(bs*bs))+.2*rndu():.5+.4*sin(x/bs)*cos(y/bs)+.05*rndu()); } CTX("round %d of a filter of %d octaves from %d, %d levels, thresholds %g %g %g magnification %g window %g: image %dx%d",rep,O,om,S,tp,te,tn,mg,ws,W,H); for(int i=0;i<W*H&&i<60;++i) ctx_add(" %.9g",I[i]);
   double*prev=NULL; int pw=0,ph=0,err=vl_sift_process_first_octave(f,I); 
   for(int o=om;;++o){ int w=o>0?W>>o:W<<-o,h=o>0?H>>o:H<<-o,A=w*h; double xp=pow(2,o); CHECK(err==(o<om+O?VL_ERR_OK:VL_ERR_EOF),"octave %d: result %d",o,err); if(err) break; CHECK(vl_sift_get_octave_index(f)==o&&vl_sift_get_octave_width(f)==w&&vl_sift_get_octave_height(f)==h,"octave %d: index %d size %dx%d",o,vl_sift_get_octave_index(f),f->octave_width,f->octave_height);
    double*base=xmalloc(8*A),*r=xmalloc(8*A);
    if(o>om){ for(int y=0;y<h;++y) for(int x=0;x<w;++x) base[y*w+x]=prev[2*y*pw+2*x]; }
    else { if(o>0) for(int y=0;y<h;++y) for(int x=0;x<w;++x) base[y*w+x]=I[(y<<o)*W+(x<<o)]; else { int cw=W,ch=H; double*c=xmalloc(8*A),*e=xmalloc(8*A); for(int i=0;i<W*H;++i) c[i]=I[i]; for(int l=0;l<-o;++l){ for(int y=0;y<2*ch;++y) for(int x=0;x<2*cw;++x){ int x0=x/2,x1=x&1&&x0<cw-1?x0+1:x0,y0=y/2,y1=y&1&&y0<ch-1?y0+1:y0; e[y*2*cw+x]=.25*(c[y0*cw+x0]+c[y0*cw+x1]+c[y1*cw+x0]+c[y1*cw+x1]); } cw*=2; ch*=2; memcpy(c,e,8*cw*ch); } memcpy(base,c,8*A); free(c); free(e); }
     double sa=s0/k,sb=.5*pow(2,-om); if(sa>sb*(1+1e-9)) smooth(base,base,w,h,sqrt(sa*sa-sb*sb)); }
    for(int s=-1;s<=S+1;++s){ float*L=vl_sift_get_octave(f,s); for(int i=0;i<A;++i) CHECK(fabs(L[i]-base[i])<1e-4*sc,"octave %d level %d: sample %d,%d is %g, should be %g",o,s,i%w,i/w,L[i],base[i]); for(int i=0;i<A;++i) r[i]=L[i]; double s1=s0*pow(k,s),s2=s1*k; smooth(base,r,w,h,sqrt(s2*s2-s1*s1)); }
    free(prev); prev=xmalloc(8*A); pw=w; ph=h; { float*L=vl_sift_get_octave(f,S-1); for(int i=0;i<A;++i) prev[i]=L[i]; } (void)ph;
    if(rnd(4)){ /* detection */ vl_sift_detect(f); float*D=f->dog; for(int s=-1;s<=S;++s){ float*a=vl_sift_get_octave(f,s),*b=vl_sift_get_octave(f,s+1); for(int i=0;i<A;++i) CHECK(D[(s+1)*A+i]==b[i]-a[i],"octave %d: difference %d at %d",o,s,i); }
     VlSiftKeypoint const*K=vl_sift_get_keypoints(f); int n=vl_sift_get_nkeypoints(f),c=0,risky=0; 
     for(int s=0;s<=S-1;++s) for(int y=1;y<h-1;++y) for(int x=1;x<w-1;++x){ float*p=D+(s+1)*A+y*w+x,v=*p; int mx=v>=.8*tp,mi=v<=-.8*tp; for(int ds=-1;ds<2;++ds) for(int dy=-1;dy<2;++dy) for(int dx=-1;dx<2;++dx) if(ds||dy||dx){ float z=p[ds*A+dy*w+dx]; if(z>=v) mx=0; if(z<=v) mi=0; } if(!mx&&!mi) continue;
      int X=x,Y=y,dx=0,dy=0,bad=0; double b[3],g[3],M[3][3],val,score; for(int q=0;q<5;++q){ X+=dx; Y+=dy; p=D+(s+1)*A+Y*w+X; int st[3]={1,w,A}; for(int i=0;i<3;++i){ g[i]=.5*((double)p[st[i]]-p[-st[i]]); for(int j=0;j<3;++j) M[i][j]=i==j?(double)p[st[i]]+p[-st[i]]-2.*p[0]:.25*((double)p[st[i]+st[j]]+p[-st[i]-st[j]]-p[st[i]-st[j]]-p[st[j]-st[i]]); }
       double big=0,det=0; for(int i=0;i<9;++i) big=fmax(big,fabs(M[0][i])); for(int i=0;i<3;++i) det+=M[0][i]*(M[1][(i+1)%3]*M[2][(i+2)%3]-M[1][(i+2)%3]*M[2][(i+1)%3]); if(fabs(det)<1e-3*big*big*big||big<1e-5*sc){ bad=1; break; }
       for(int i=0;i<3;++i){ double N[3][3],e=0; memcpy(N,M,sizeof N); for(int j=0;j<3;++j) N[j][i]=-g[j]; for(int j=0;j<3;++j) e+=N[0][j]*(N[1][(j+1)%3]*N[2][(j+2)%3]-N[1][(j+2)%3]*N[2][(j+1)%3]); b[i]=e/det; }
       for(int i=0;i<2;++i) if(fabs(fabs(b[i])-.6)<1e-2) bad=1; dx=b[0]>.6&&X<w-2?1:b[0]<-.6&&X>1?-1:0; dy=b[1]>.6&&Y<h-2?1:b[1]<-.6&&Y>1?-1:0; if(!dx&&!dy) break; }
      if(bad){ risky=1; break; }
      val=p[0]+.5*(g[0]*b[0]+g[1]*b[1]+g[2]*b[2]); double tr=M[0][0]+M[1][1],dt=M[0][0]*M[1][1]-M[0][1]*M[1][0]; score=tr*tr/dt; double lim=(te+1)*(te+1)/te,xn=X+b[0],yn=Y+b[1],sn=s+b[2];
      if(fabs(fabs(val)-tp)<1e-5*sc||fabs(score-lim)<1e-2*lim||fabs(dt)<1e-3*tr*tr) { risky=1; break; } for(int i=0;i<3;++i) if(fabs(fabs(b[i])-1.5)<1e-2) risky=1; if(fabs(xn)<1e-2||fabs(yn)<1e-2||fabs(xn-w+1)<1e-2||fabs(yn-h+1)<1e-2||fabs(sn+1)<1e-2||fabs(sn-S-1)<1e-2) risky=1; if(risky) break;
      int good=fabs(val)>tp&&score<lim&&score>=0&&fabs(b[0])<1.5&&fabs(b[1])<1.5&&fabs(b[2])<1.5&&xn>=0&&xn<=w-1&&yn>=0&&yn<=h-1&&sn>=-1&&sn<=S+1; if(!good) continue;
      CHECK(c<n,"octave %d: the extremum at %d,%d,%d is missing",o,x,y,s); VlSiftKeypoint const*z=K+c++; CHECK(z->o==o&&z->ix==X&&z->iy==Y&&z->is==s,"octave %d: keypoint %d has o,ix,iy,is %d,%d,%d,%d instead of %d,%d,%d",o,c-1,z->o,z->ix,z->iy,z->is,X,Y,s); CHECK(fabs(z->x-xn*xp)<1e-2*xp&&fabs(z->y-yn*xp)<1e-2*xp&&fabs(z->s-sn)<1e-2,"octave %d: keypoint %d at %g,%g,%g instead of %g,%g,%g",o,c-1,z->x,z->y,z->s,xn*xp,yn*xp,sn); CHECK(fabs(z->sigma/(s0*pow(2,z->s/S)*xp)-1)<1e-4,"octave %d: keypoint %d sigma %g",o,c-1,z->sigma); }
     if(!risky) CHECK(c==n,"octave %d: %d keypoints, %d extrema pass the thresholds",o,n,c);
     for(int i=0;i<n;++i) CHECK(K[i].o==o&&K[i].ix>=1&&K[i].ix<=w-2&&K[i].iy>=1&&K[i].iy<=h-2&&K[i].is>=0&&K[i].is<=S-1&&K[i].x>=0&&K[i].x<=(w-1)*xp*(1+1e-6)&&K[i].y>=0&&K[i].y<=(h-1)*xp*(1+1e-6)&&K[i].s>=-1&&K[i].s<=S+1,"octave %d: keypoint %d at %g,%g,%g (%d,%d,%d)",o,i,K[i].x,K[i].y,K[i].s,K[i].ix,K[i].iy,K[i].is); }
    else CHECK(vl_sift_get_nkeypoints(f)==0,"octave %d: %d keypoints before the detection",o,vl_sift_get_nkeypoints(f));
    double*G=xmalloc(16*A); int lev=-9; int todo=rnd(3)?rnd(12):0; for(int t=0;t<todo;++t){ VlSiftKeypoint z; int n=vl_sift_get_nkeypoints(f); if(n&&rnd(2)) z=vl_sift_get_keypoints(f)[rnd(n)]; else { double x=(rndu()*1.1-.05)*w*xp,y=(rndu()*1.1-.05)*h*xp,sg=s0*pow(2,(rndu()*1.4-.2)+(rnd(3)?o:rndi(om-1,om+O))); if(x<0&&x/xp>-.6) x=0; if(y<0&&y/xp>-.6) y=0; vl_sift_keypoint_init(f,&z,x,y,sg); double phi=log(sg/s0)/log(2),e=phi+.5/S; int oo=floor(e); oo=oo<om?om:oo>om+O-1?om+O-1:oo; double ss=S*(phi-oo); int is=floor(ss+.5); is=is<0?0:is>S-1?S-1:is; if(fabs(e-rint(e))>1e-6&&fabs(ss+.5-rint(ss+.5))>1e-6) CHECK(z.o==oo&&z.is==is&&fabs(z.s-ss)<1e-4&&fabs(z.x-x)<1e-4*(1+fabs(x))&&fabs(z.y-y)<1e-4*(1+fabs(y))&&fabs(z.sigma-sg)<1e-5*sg&&z.ix==(int)(x/pow(2,oo)+.5)&&z.iy==(int)(y/pow(2,oo)+.5),"keypoint for %g,%g,%g: o %d is %d s %g ix %d iy %d, should be %d %d %g",x,y,sg,z.o,z.is,z.s,z.ix,z.iy,oo,is,ss); }
     double x=z.x/xp,y=z.y/xp,sg=z.sigma/xp; if(sg>6) continue; int xi=x+.5,yi=y+.5; double an[4]={9,9,9,9},a2[4]; int na=vl_sift_calc_keypoint_orientations(f,an,&z); if(z.o!=o||xi<0||yi<0||xi>w-1||yi>h-1){ CHECK(na==0,"%d orientations outside the octave",na); continue; }
     if(lev!=z.is){ lev=z.is; float*L=vl_sift_get_octave(f,lev); for(int v=0;v<h;++v) for(int u=0;u<w;++u){ int a=u?u-1:0,c=u<w-1?u+1:u,d=v?v-1:0,e=v<h-1?v+1:v; double gx=((double)L[v*w+c]-L[v*w+a])/(c-a),gy=((double)L[e*w+u]-L[d*w+u])/(e-d); float fx=gx,fy=gy; G[2*(v*w+u)]=vl_fast_sqrt_f(fx*fx+fy*fy); double th=fmod(vl_fast_atan2_f((float)gy,(float)gx)+2*M_PI,2*M_PI); G[2*(v*w+u)+1]=th; } }
     int ri=0,nr=orient(a2,G,w,h,x,y,sg,&ri); if(!ri){ CHECK(na==nr,"octave %d keypoint %g,%g,%g: %d orientations instead of %d",o,z.x,z.y,z.sigma,na,nr); for(int i=0;i<na;++i) CHECK(fabs(an[i]-a2[i])<1e-2,"octave %d keypoint %g,%g,%g: orientation %d is %g instead of %g",o,z.x,z.y,z.sigma,i,an[i],a2[i]); }
     float P[130]; double R[128]; int num; P[128]=7; double a0=na&&rnd(2)?an[rnd(na)]:(rndu()*2-1)*2*M_PI; for(int i=0;i<128;++i) P[i]=-5; vl_sift_calc_keypoint_descriptor(f,P,&z,a0); if(yi>=h-1){ CHECK(P[0]==-5,"descriptor outside the octave"); } else { double nn=descr(R,G,w,h,x,y,sg,a0,mg,ws,1,&num); if(fabs(nn-tn)>1e-3*nn&&nn>1e-4*sc){ if(tn>0&&nn<tn) for(int i=0;i<128;++i) CHECK(P[i]==0,"octave %d keypoint %g,%g,%g angle %g: norm %g below the threshold, component %d is %g",o,z.x,z.y,z.sigma,a0,nn,i,P[i]); else for(int i=0;i<128;++i) CHECK(fabs(P[i]-R[i])<3e-3,"octave %d keypoint %g,%g,%g angle %g: descriptor %d is %g instead of %g",o,z.x,z.y,z.sigma,a0,i,P[i],R[i]); } }
     CHECK(P[128]==7,"descriptor overflow"); float*gf=xmalloc(8*A); for(int i=0;i<2*A;++i) gf[i]=G[i]; for(int i=0;i<128;++i) P[i]=-5; vl_sift_calc_raw_descriptor(f,gf,P,w,h,x,y,sg,a0); free(gf); if(yi>=h-1){ CHECK(P[0]==-5,"raw descriptor outside the image"); } else { double nn=descr(R,G,w,h,x,y,sg,a0,mg,ws,0,&num); if(fabs(nn-tn*num)>1e-3*nn&&nn>1e-4*sc){ if(tn>0&&nn<tn*num) for(int i=0;i<128;++i) CHECK(P[i]==0,"raw descriptor %g,%g,%g angle %g: norm %g below the threshold, component %d is %g",x,y,sg,a0,nn,i,P[i]); else for(int i=0;i<128;++i) CHECK(fabs(P[i]-R[i])<3e-3,"raw descriptor at %g,%g,%g angle %g: component %d is %g instead of %g",x,y,sg,a0,i,P[i],R[i]); } } }
    free(G); free(base); free(r); err=vl_sift_process_next_octave(f); }
   free(prev); CASE(); }
  free(I); vl_sift_delete(f); } return orc_end(); }
