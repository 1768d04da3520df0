#include "orc.h"
#include <unistd.h>
#include <vl/pgm.h>
#include <vl/mathop.h>
static char fn[64]="/tmp/orcpgmXXXXXX";
static void gone(void){ unlink(fn); }
static unsigned char*buf; static size_t nb;
static void put(int c){ if(nb<1<<20) buf[nb++]=c; }
static void puts_(char const*s){ while(*s) put(*s++); }
static void num(long v){ char t[40]; snprintf(t,sizeof t,"%ld",v); puts_(t); }
static void save(void){ FILE*f=fopen(fn,"wb"); if(!f) exit(3); fwrite(buf,1,nb,f); fclose(f); }
/* the reference reader: the grammar of the format over the bytes in buf */
static int blank(int c){ return c==' '||c=='\t'||c=='\n'||c=='\r'; }
static size_t blanks(size_t p){ while(p<nb){ if(blank(buf[p])) p++; else if(buf[p]=='#'){ while(p<nb&&buf[p]!='\n') p++; if(p<nb) p++; } else break; } return p; }
static int number(size_t*p,long*v,int wsp){ size_t q=*p; int neg=0,any=0; (void)wsp; while(q<nb&&(blank(buf[q])||buf[q]=='\v'||buf[q]=='\f')) q++; if(q<nb&&(buf[q]=='-'||buf[q]=='+')){ neg=buf[q]=='-'; q++; } *v=0; while(q<nb&&buf[q]>='0'&&buf[q]<='9'){ *v=*v*10+buf[q]-'0'; any=1; q++; } if(neg) *v=-*v; if(any) *p=q; return any; }
static int head(size_t*p,long*w,long*h,long*m,int*raw){ size_t q,b; *p=0; if(nb<2||buf[0]!='P'||(buf[1]!='2'&&buf[1]!='5')) return VL_ERR_PGM_INV_HEAD; *raw=buf[1]=='5'; q=2; long*o[3]={w,h,m}; for(int i=0;i<3;++i){ b=blanks(q); if(b==q) return VL_ERR_PGM_INV_META; q=b; if(!number(&q,o[i],0)) return VL_ERR_PGM_INV_META; } if(q>=nb||!blank(buf[q])) return VL_ERR_PGM_INV_META; *p=q+1; if(*w<0||*h<0||*m<=0||*m>=65536) return VL_ERR_PGM_INV_META; return 0; }
static void sep(void){ int k=1+rnd(2); while(k--) switch(rnd(6)){ case 0: put('\t'); break; case 1: put('\n'); break; case 2: put('\r'); break; case 3: puts_(" # width 12\n"); break; case 4: puts_(rnd(2)?"\n#a\n#\n":"#x\n"); break; default: put(' '); } }
static void ctx(char const*what){ CTX("%s, file of %d bytes:",what,(int)nb); for(size_t i=0;i<nb&&i<600;++i) ctx_add(buf[i]>=32&&buf[i]<127&&buf[i]!='\\'?"%c":"\\x%02x",buf[i]); }
static void reader(void){ long w=rnd(5)?rndi(0,6):rndi(-2,40),h=rnd(5)?rndi(0,6):rndi(-2,9),m; int raw=rnd(2); switch(rnd(9)){ case 0: m=1; break; case 1: m=255; break; case 2: m=256; break; case 3: m=65535; break; case 4: m=65536; break; case 5: m=0; break; case 6: m=rndi(-3,70000); break; case 7: m=1+rnd(255); break; default: m=256+rnd(65000); }
  nb=0; put(rnd(40)?'P':'p'); put(raw?rnd(40)?'5':'4':rnd(40)?'2':'1'); if(rnd(30)) sep(); num(w); if(rnd(40)) sep(); num(h); if(rnd(40)) sep(); if(rnd(40)) num(m); else puts_("x"); if(rnd(30)) put(" \n\t\r"[rnd(4)]); else if(rnd(2)) put('x'); 
  long n=w>0&&h>0?w*h:0; int wide=m>=256; long cnt=rnd(4)?n:n+(long)rndi(-2,2); if(cnt<0) cnt=0;
  if(raw){ long bytes=cnt*(wide?2:1); if(rnd(8)==0&&bytes>0) bytes--; for(long i=0;i<bytes;++i) put(rnd(3)?rnd(256):"P5# \n\r\xff\0"[rnd(8)]); }
  else for(long i=0;i<cnt;++i){ num((long)(rnd(4)?rnd(m>0?m+1:2):rnd(70000))); if(rnd(60)==0) put(rnd(2)?'d':'u'); if(i+1<cnt||rnd(2)) put(" \n\t\r"[rnd(4)]); if(rnd(9)==0) put(' '); }
  { int run=0; for(size_t i=0;i<nb;++i){ run=buf[i]>=48&&buf[i]<58?run+1:0; if(run>9&&!raw) return; if(run>9&&i<60) return; } }
  save(); ctx("read");
  size_t p; long W,H,Mx; int R,e=head(&p,&W,&H,&Mx,&R); if(!e&&(double)W*H>1e5) return; VlPgmImage im; memset(&im,0,sizeof im); FILE*f=fopen(fn,"rb"); int g=vl_pgm_extract_head(f,&im); CHECK(g==e,"header result is %d, should be %d",g,e);
  unsigned short*ref=0; int de=0; if(!e){ CHECK((long)im.width==W&&(long)im.height==H&&(long)im.max_value==Mx&&!im.is_raw==!R,"header is %dx%d max %d raw %d, should be %ldx%ld max %ld raw %d",(int)im.width,(int)im.height,(int)im.max_value,(int)im.is_raw,W,H,Mx,R); CHECK((size_t)ftell(f)==p,"the pixels start at byte %d, should be %d",(int)ftell(f),(int)p); CHECK((long)vl_pgm_get_npixels(&im)==W*H&&(int)vl_pgm_get_bpp(&im)==(Mx>=256)+1,"size accessors");
    long N=W*H; ref=xmalloc(2*N+2); if(R){ if(nb-p<(size_t)(N*((Mx>=256)+1))) de=1; else for(long i=0;i<N;++i) ref[i]=Mx>=256?buf[p+2*i]*256+buf[p+2*i+1]:buf[p+i]; } else { size_t q=p; for(long i=0;i<N&&!de;++i){ long v; if(number(&q,&v,1)) ref[i]=Mx>=256?(unsigned short)v:(unsigned char)v; else de=1; } }
    unsigned char*d=xmalloc(N*2+8); memset(d,0xa5,N*2+8); size_t sz=N*((Mx>=256)+1); g=vl_pgm_extract_data(f,&im,d); CHECK((g!=0)==de&&(!g||g==VL_ERR_PGM_INV_DATA),"pixel result is %d, should be %s",g,de?"an error":"0"); CHECK(d[sz]==0xa5&&d[sz+1]==0xa5,"wrote past the pixels"); if(!g) for(long i=0;i<N;++i){ int v=Mx>=256?((unsigned short*)d)[i]:d[i]; CHECK(v==ref[i],"pixel %ld is %d, should be %d",i,v,ref[i]); } free(d); }
  fclose(f);
  int nfd=dup(0); close(nfd); { vl_uint8*d=(void*)16; VlPgmImage i2; g=vl_pgm_read_new(fn,&i2,&d); int bad=e||Mx>=256||de; CHECK((g!=0)==bad,"vl_pgm_read_new returns %d",g); if(!bad){ for(long i=0;i<W*H;++i) CHECK(d[i]==ref[i],"vl_pgm_read_new: pixel %ld is %d, should be %d",i,d[i],ref[i]); vl_free(d); } }
  { float*d=0; VlPgmImage i2; g=vl_pgm_read_new_f(fn,&i2,&d); int bad=e||Mx>=256||de; CHECK((g!=0)==bad,"vl_pgm_read_new_f returns %d",g); if(!bad){ for(long i=0;i<W*H;++i) CHECK(fabs(d[i]-ref[i]/(double)Mx)<=1e-6*(1+ref[i]/(double)Mx),"vl_pgm_read_new_f: pixel %ld is %g, should be %g",i,d[i],ref[i]/(double)Mx); vl_free(d); } }
  { int x=dup(0); close(x); CHECK(x==nfd,"a file was left open"); } free(ref); CASE(); }
static void writer(void){ int w=rnd(12),h=rnd(12),m=rnd(2)?1+rnd(255):256+rnd(65280); if(rnd(4)==0) m=255; int N=w*h,wide=m>=256; unsigned char*d=xmalloc(2*N+2); unsigned short*v=xmalloc(2*N+2); for(int i=0;i<N;++i){ v[i]=rnd(m+1); if(wide) ((unsigned short*)d)[i]=v[i]; else d[i]=v[i]; } CTX("write %dx%d max %d:",w,h,m); for(int i=0;i<N;++i) ctx_add(" %d",v[i]);
  VlPgmImage im; im.width=w; im.height=h; im.max_value=m; im.is_raw=1; FILE*f=fopen(fn,"wb"); int g=vl_pgm_insert(f,&im,d); fclose(f); CHECK(g==0,"vl_pgm_insert returns %d",g);
  f=fopen(fn,"rb"); nb=fread(buf,1,1<<20,f); fclose(f); size_t p; long W,H,Mx; int R; g=head(&p,&W,&H,&Mx,&R); CHECK(g==0&&R&&W==w&&H==h&&Mx==m,"the header written does not describe the image"); CHECK(nb-p==(size_t)(N*(wide+1)),"%d bytes of pixels written, should be %d",(int)(nb-p),N*(wide+1)); for(int i=0;i<N;++i){ int x=wide?buf[p+2*i]*256+buf[p+2*i+1]:buf[p+i]; CHECK(x==v[i],"pixel %d written as %d, should be %d",i,x,v[i]); } for(int i=0;i<N;++i) if(wide) CHECK(((unsigned short*)d)[i]==v[i],"the input was changed");
  /* round trips through the file */ f=fopen(fn,"rb"); VlPgmImage i2; unsigned char*b2=xmalloc(2*N+2); CHECK(!vl_pgm_extract_head(f,&i2)&&(int)i2.width==w&&(int)i2.height==h&&(int)i2.max_value==m,"the file written cannot be read back"); CHECK(!vl_pgm_extract_data(f,&i2,b2)&&!memcmp(b2,d,N*(wide+1)),"the pixels read back differ"); fclose(f); free(b2);
  if(!wide){ CHECK(!vl_pgm_write(fn,d,w,h),"vl_pgm_write fails"); vl_uint8*q=0; CHECK(!vl_pgm_read_new(fn,&i2,&q)&&(int)i2.width==w&&(int)i2.height==h&&i2.max_value==255&&!memcmp(q,d,N),"vl_pgm_write: the image read back differs"); vl_free(q); }
  if(N>0){ float*fl=xmalloc(4*N),lo=1e30,hi=-1e30; for(int i=0;i<N;++i){ fl[i]=rndd(); if(rnd(5)==0) fl[i]=fl[0]; lo=fl[i]<lo?fl[i]:lo; hi=fl[i]>hi?fl[i]:hi; } CTX("write float %dx%d:",w,h); for(int i=0;i<N;++i) ctx_add(" %.9g",fl[i]); CHECK(!vl_pgm_write_f(fn,fl,w,h),"vl_pgm_write_f fails"); vl_uint8*q=0; CHECK(!vl_pgm_read_new(fn,&i2,&q)&&(int)i2.width==w&&(int)i2.height==h,"vl_pgm_write_f: cannot read back"); for(int i=0;i<N;++i){ double e=255.*((double)fl[i]-lo)/((double)hi-lo+VL_EPSILON_F); CHECK(q[i]<=e+1e-3&&q[i]>=e-1.001,"vl_pgm_write_f: pixel %d is %d, should be %g",i,q[i],e); } vl_free(q); free(fl); }
  free(d);free(v); CASE(); }
static void missing(void){ VlPgmImage im; vl_uint8*d=0; float*g=0; CTX("file that does not exist"); CHECK(vl_pgm_read_new("/nonexistent/x.pgm",&im,&d)==VL_ERR_PGM_IO&&vl_pgm_read_new_f("/nonexistent/x.pgm",&im,&g)==VL_ERR_PGM_IO&&vl_pgm_write("/nonexistent/x.pgm",(vl_uint8*)"",0,0)==VL_ERR_PGM_IO,"no I/O error"); CASE(); }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); buf=xmalloc(1<<20); int fd=mkstemp(fn); if(fd<0) return 3; close(fd); atexit(gone); missing(); for(long t=0;t<it;++t) if(rnd(3)) reader(); else writer(); return orc_end(); }
