#include "orc.h"
#include <vl/scalespace.h>
#include <vl/imopv.h>
static VlScaleSpaceGeometry g;
static int W(int o){ return o<0?(int)g.width<<-o:(int)g.width>>o; }
static int H(int o){ return o<0?(int)g.height<<-o:(int)g.height>>o; }
static double sig(int o,int s){ return g.baseScale*pow(2,o+(double)s/g.octaveResolution); }
static float*down(const float*a,int w,int h,int d){ int S=1<<d,W2=w/S,H2=h/S; float*r=xmalloc(4*(W2*H2+1)); for(int y=0;y<H2;++y) for(int x=0;x<W2;++x) r[x+W2*y]=a[x*S+w*(y*S)]; return r; }
static float*upf(const float*a,int w,int h){ float*r=xmalloc(4*4*w*h); for(int y=0;y<2*h;++y) for(int x=0;x<2*w;++x){ int x0=x/2,y0=y/2,x1=x0+(x&1),y1=y0+(y&1); if(x1>w-1) x1=w-1; if(y1>h-1) y1=h-1; r[x+2*w*y]=.25*((double)a[x0+w*y0]+a[x1+w*y0]+a[x0+w*y1]+a[x1+w*y1]); } return r; }
static void smooth(float*a,int o,double s1,double s0){ if(!(s1>s0)) return; double d=sqrt(s1*s1-s0*s0)/pow(2,o); float*t=xmalloc(4*W(o)*H(o)); memcpy(t,a,4*W(o)*H(o)); vl_imsmooth_f(a,W(o),t,W(o),H(o),W(o),d,d); free(t); }
static void cmp(VlScaleSpace*q,int o,int s,const float*want){ float const*l=vl_scalespace_get_level_const(q,o,s); CHECK(l==vl_scalespace_get_level(q,o,s),"level"); for(int i=0;i<W(o)*H(o);++i) CHECK(fabs(l[i]-want[i])<=2e-4,"octave %d level %d pixel (%d,%d) is %.9g, should be %.9g",o,s,i%W(o),i/W(o),l[i],want[i]); }
static int eq(VlScaleSpaceGeometry a,VlScaleSpaceGeometry b){ return vl_scalespacegeometry_is_equal(a,b); }
static void one(void){ int w=1+rnd(24),h=1+rnd(24); VlScaleSpaceGeometry d=vl_scalespace_get_default_geometry(w,h); int m=w<h?w:h,lo=(int)floor(log2(m))-3; if(lo<0) lo=0; CTX("%d x %d, default geometry",w,h);
  CHECK((int)d.width==w&&(int)d.height==h&&d.firstOctave==0&&d.lastOctave==lo&&d.octaveResolution==3&&d.octaveFirstSubdivision==0&&d.octaveLastSubdivision==2&&fabs(d.baseScale-1.6*pow(2,1/3.))<1e-12&&d.nominalScale==.5,"last octave %d",(int)d.lastOctave);
  g=d; if(rnd(6)){ g.firstOctave=rndi(-2,1); int top=0; while((m>>(top+1))>0&&top<4) ++top; g.lastOctave=rnd(top+1); if(g.firstOctave>top) g.firstOctave=top; if(g.lastOctave<g.firstOctave) g.lastOctave=g.firstOctave; if(g.firstOctave<0&&g.lastOctave<0) g.lastOctave=0; g.octaveResolution=1+rnd(4); g.octaveFirstSubdivision=rndi(-1,1); g.octaveLastSubdivision=g.octaveFirstSubdivision+rnd(g.octaveResolution+3); g.baseScale=rnd(3)?.8+rndu():.3+rndu()*.4; g.nominalScale=rnd(3)?.5:rndu(); }
  CTX("%d x %d, octaves %d to %d, resolution %d, levels %d to %d, base scale %.9g, nominal scale %.9g:",w,h,(int)g.firstOctave,(int)g.lastOctave,(int)g.octaveResolution,(int)g.octaveFirstSubdivision,(int)g.octaveLastSubdivision,g.baseScale,g.nominalScale);
  /* comparison of geometries: equal to itself, different after any change */
  CHECK(eq(g,g),"a geometry is not equal to itself"); VlScaleSpaceGeometry b=g; switch(rnd(9)){ case 0: b.width++; break; case 1: b.height++; break; case 2: b.firstOctave--; break; case 3: b.lastOctave++; break; case 4: b.octaveResolution++; break; case 5: b.octaveFirstSubdivision+=rnd(2)?-1:(int)(g.octaveLastSubdivision-g.octaveFirstSubdivision)?(int)(g.octaveLastSubdivision-g.octaveFirstSubdivision):-1; break; case 6: b.octaveLastSubdivision++; break; case 7: b.baseScale*=1.5; break; default: b.nominalScale+=.25; } CHECK(!eq(g,b)&&!eq(b,g),"different geometries are equal");
  float*im=xmalloc(4*w*h); for(int i=0;i<w*h;++i){ im[i]=rnd(4)?(float)rndu():(float)rndi(0,1); ctx_add(i<200?" %.9g":"",im[i]); }
  VlScaleSpace*q=vl_scalespace_new_with_geometry(g); VlScaleSpaceGeometry gg=vl_scalespace_get_geometry(q); CHECK(eq(gg,g),"geometry of the object");
  for(int o=g.firstOctave;o<=g.lastOctave;++o){ VlScaleSpaceOctaveGeometry og=vl_scalespace_get_octave_geometry(q,o); CHECK((int)og.width==W(o)&&(int)og.height==H(o)&&og.step==pow(2,o),"octave %d is %dx%d, step %g",o,(int)og.width,(int)og.height,og.step); for(int s=g.octaveFirstSubdivision;s<=g.octaveLastSubdivision;++s) CHECK(fabs(vl_scalespace_get_level_sigma(q,o,s)-sig(o,s))<1e-12*(1+sig(o,s)),"scale of octave %d level %d",o,s); }
  vl_scalespace_put_image(q,im); VlScaleSpace*cp=rnd(4)?0:vl_scalespace_new_copy(q);
  int F=g.octaveFirstSubdivision,La=g.octaveLastSubdivision; float*cur=0; int pl=F+(int)g.octaveResolution<La?F+(int)g.octaveResolution:La; float*keep=0;
  for(int o=g.firstOctave;o<=g.lastOctave;++o){ if(o==g.firstOctave){ if(o>0) cur=down(im,w,h,o); else { cur=down(im,w,h,0); for(int p=-1;p>=o;--p){ float*t=upf(cur,W(p+1),H(p+1)); free(cur); cur=t; } } smooth(cur,o,sig(o,F),g.nominalScale); } else { cur=down(keep,W(o-1),H(o-1),1); free(keep); smooth(cur,o,sig(o,F),sig(o-1,pl)); }
    keep=0; for(int s=F;s<=La;++s){ if(s>F) smooth(cur,o,sig(o,s),sig(o,s-1)); cmp(q,o,s,cur); if(cp) cmp(cp,o,s,cur); if(s==pl){ keep=xmalloc(4*W(o)*H(o)+4); memcpy(keep,cur,4*W(o)*H(o)); } } free(cur); }
  free(keep); free(im); if(cp) vl_scalespace_delete(cp); vl_scalespace_delete(q); CASE(); }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t) one(); return orc_end(); }
