#include "orc.h"
#include <vl/dsift.h>
#include <vl/mathop.h>
static int clampi(int x,int n){ return x<0?0:x>=n?n-1:x; }
static double normalise(double*d,int n){ double s=0; for(int i=0;i<n;++i) s+=d[i]*d[i]; s=sqrt(s)+VL_EPSILON_F; for(int i=0;i<n;++i) d[i]/=s; return s; }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long q=0;q<it;++q){ int W=2+rnd(14),H=2+rnd(14),basic=rnd(3)==0; VlDsiftFilter*f; int sx=5,sy=5,b[4]={0,0,W-1,H-1},flat=0; double win=2; VlDsiftDescriptorGeometry g; g.numBinX=g.numBinY=4; g.numBinT=8; g.binSizeX=g.binSizeY=5;
  if(basic){ sx=sy=1+rnd(4); g.binSizeX=g.binSizeY=1+rnd(4); f=vl_dsift_new_basic(W,H,sx,g.binSizeX); } else f=vl_dsift_new(W,H);
  float*I=xmalloc(4*W*H); double*G=NULL;
  for(int rep=0;rep<3;++rep){ CTX("image %dx%d, round %d:",W,H,rep); double sc=rnd(2)?1:255; for(int i=0;i<W*H;++i){ I[i]=rnd(20)?rndu()*sc:0; if(i<80) ctx_add(" %.9g",I[i]); }
   for(int k=rnd(6);k-->0;) switch(rnd(5)){ case 0: sx=1+rnd(4); sy=1+rnd(4); vl_dsift_set_steps(f,sx,sy); break; case 1: b[0]=rnd(W);b[1]=rnd(H);b[2]=b[0]+rnd(W-b[0]);b[3]=b[1]+rnd(H-b[1]); if(rnd(2)){ b[0]=b[1]=0;b[2]=W-1;b[3]=H-1; } vl_dsift_set_bounds(f,b[0],b[1],b[2],b[3]); break; case 2: g.numBinX=1+rnd(4);g.numBinY=1+rnd(4);g.numBinT=1+rnd(9);g.binSizeX=1+rnd(5);g.binSizeY=1+rnd(5); vl_dsift_set_geometry(f,&g); break; case 3: flat=rnd(2); vl_dsift_set_flat_window(f,flat); break; case 4: win=.5+3*rndu(); vl_dsift_set_window_size(f,win); }
   ctx_add(" steps %d,%d bounds %d,%d,%d,%d bins %dx%dx%d of %dx%d flat %d window %g",sx,sy,b[0],b[1],b[2],b[3],g.numBinX,g.numBinY,g.numBinT,g.binSizeX,g.binSizeY,flat,win);
   int T=g.numBinT,X=g.numBinX,Y=g.numBinY,D=T*X*Y,nx=0,ny=0; while(b[0]+nx*sx+(X-1)*g.binSizeX<=b[2]) nx++; while(b[1]+ny*sy+(Y-1)*g.binSizeY<=b[3]) ny++;
   VlDsiftDescriptorGeometry const*gg=vl_dsift_get_geometry(f); int o[6]; vl_dsift_get_bounds(f,o,o+1,o+2,o+3); vl_dsift_get_steps(f,o+4,o+5); CHECK(o[0]==b[0]&&o[1]==b[1]&&o[2]==b[2]&&o[3]==b[3],"bounds %d,%d,%d,%d",o[0],o[1],o[2],o[3]); CHECK(o[4]==sx&&o[5]==sy,"steps %d,%d",o[4],o[5]); CHECK(gg->numBinX==X&&gg->numBinY==Y&&gg->numBinT==T&&gg->binSizeX==g.binSizeX&&gg->binSizeY==g.binSizeY,"geometry"); CHECK(!vl_dsift_get_flat_window(f)==!flat&&vl_dsift_get_window_size(f)==win,"window");
   CHECK(vl_dsift_get_descriptor_size(f)==D,"descriptor size %d",vl_dsift_get_descriptor_size(f)); CHECK(vl_dsift_get_keypoint_num(f)==nx*ny,"%d keypoints instead of %d x %d",vl_dsift_get_keypoint_num(f),nx,ny);
   vl_dsift_process(f,I); CHECK(vl_dsift_get_keypoint_num(f)==nx*ny,"%d keypoints after processing",vl_dsift_get_keypoint_num(f));
   /* soft assigned gradients */
   free(G); G=xmalloc(8*T*W*H); memset(G,0,8*T*W*H); double tot=0; for(int y=0;y<H;++y) for(int x=0;x<W;++x){ int a=x?x-1:0,c=x<W-1?x+1:x,d=y?y-1:0,e=y<H-1?y+1:y; double gx=((double)I[y*W+c]-I[y*W+a])/(c-a),gy=((double)I[e*W+x]-I[d*W+x])/(e-d),m=sqrt(gx*gx+gy*gy),an=vl_fast_atan2_f((float)gy,(float)gx); an=fmod(an+2*M_PI,2*M_PI)*T/(2*M_PI); int t=floor(an); an-=t; G[(t%T)*W*H+y*W+x]+=(1-an)*m; G[((t+1)%T)*W*H+y*W+x]+=an*m; tot+=m; }
   VlDsiftKeypoint const*K=vl_dsift_get_keypoints(f); float const*P=vl_dsift_get_descriptors(f); double*d=xmalloc(8*D); float*tr=xmalloc(4*D);
   for(int i=0;i<nx*ny;++i){ int fx=b[0]+(i%nx)*sx,fy=b[1]+(i/nx)*sy; CHECK(K[i].x==fx+.5*g.binSizeX*(X-1)&&K[i].y==fy+.5*g.binSizeY*(Y-1),"keypoint %d at %g,%g",i,K[i].x,K[i].y); double mass=0,big=0;
    for(int by=0;by<Y;++by) for(int bx=0;bx<X;++bx){ int Bx=g.binSizeX,By=g.binSizeY; double dx=Bx*(bx-.5*(X-1)),dy=By*(by-.5*(Y-1)),wx=0,wy=0; for(int u=1-Bx;u<Bx;++u) wx+=exp(-.5*pow((u+dx)/(Bx*win),2))/(2*Bx-1); for(int u=1-By;u<By;++u) wy+=exp(-.5*pow((u+dy)/(By*win),2))/(2*By-1);
     for(int t=0;t<T;++t){ double s=0; for(int v=1-By;v<By;++v) for(int u=1-Bx;u<Bx;++u){ double w=(1-fabs(u)/Bx)*(1-fabs(v)/By)*(flat?1:exp(-.5*(pow((u+dx)/(Bx*win),2)+pow((v+dy)/(By*win),2)))); s+=w*G[t*W*H+clampi(fy+by*By+v,H)*W+clampi(fx+bx*Bx+u,W)]; } if(flat) s*=wx*wy; d[t+T*(bx+X*by)]=s; mass+=s; if(s>big) big=s; } }
    int ok=1; mass/=(g.binSizeX*(X-1)+1)*(g.binSizeY*(Y-1)+1); CHECK(fabs(K[i].norm-mass)<=1e-3*mass+1e-5*tot,"keypoint %d: norm %g, should be %g",i,K[i].norm,mass);
    double n=normalise(d,D); if(n<1e-3*tot||n<1e-4) ok=0; for(int k=0;k<D;++k) if(d[k]>.2) d[k]=.2; normalise(d,D);
    if(ok) for(int k=0;k<D;++k) CHECK(fabs(P[i*D+k]-d[k])<(flat?1e-2:2e-3),"keypoint %d, bin %d,%d orientation %d: %g, should be %g",i,k/T%X,k/T/X,k%T,P[i*D+k],d[k]);
    if(i==0){ vl_dsift_transpose_descriptor(tr,P,T,X,Y); for(int y=0;y<Y;++y) for(int x=0;x<X;++x) for(int t=0;t<T;++t){ int u=((T/4-t)%T+T)%T; CHECK(tr[u+T*(y+Y*x)]==P[t+T*(x+X*y)],"transposed descriptor %d,%d,%d",x,y,t); } } }
   free(d); free(tr); CASE(); }
  vl_dsift_delete(f); free(I); free(G); } return orc_end(); }
