#include "orc.h"
#include <vl/mser.c>
/* reference: extremal regions are the connected components of the sets { im <= t } */
#define MAXN 400
static int nd,dm[3],st[3],nel; static unsigned char*im; static int lab[MAXN],stk[MAXN];
static int flood(int seed,int t,int*mem){ int n=0,k=0; memset(lab,0,sizeof lab); stk[n++]=seed; lab[seed]=1; while(n){ int p=stk[--n],sub[3],q=p; mem[k++]=p; for(int d=nd-1;d>=0;--d){ sub[d]=q/st[d]; q%=st[d]; } int tot=1; for(int d=0;d<nd;++d) tot*=3; for(int c=0;c<tot;++c){ int x=c,r=0,ok=1; for(int d=0;d<nd;++d){ int v=sub[d]+x%3-1; x/=3; if(v<0||v>=dm[d]) ok=0; r+=v*st[d]; } if(ok&&!lab[r]&&im[r]<=t){ lab[r]=1; stk[n++]=r; } } } return k; }
typedef struct { int val,area,parent,stable,last; float var; int mem[MAXN]; unsigned char in[MAXN]; } Reg;
static Reg*R; static int nr;
static int find(int seed,int t){ static int m[MAXN]; int n=flood(seed,t,m),v=0; for(int i=0;i<n;++i) if(im[m[i]]>v) v=im[m[i]]; for(int i=0;i<nr;++i) if(R[i].val==v&&R[i].in[seed]) return i; Reg*r=R+nr; memset(r,0,sizeof*r); r->val=v; r->area=n; memcpy(r->mem,m,n*sizeof(int)); for(int i=0;i<n;++i) r->in[m[i]]=1; return nr++; }
static void one(void){ nd=1+rnd(3); nel=1; int cap=nd==1?40:nd==2?9:5; for(int d=0;d<nd;++d){ dm[d]=1+rnd(cap); st[d]=nel; nel*=dm[d]; } im=xmalloc(nel); int lev=1+rnd(rnd(3)?6:40),step=rnd(3)?1:1+rnd(6),base=rnd(3)?0:255-(lev-1)*step; if(base<0) base=rnd(200); for(int i=0;i<nel;++i){ int v=base+step*rnd(lev); im[i]=v>255?255:v; if(i&&rnd(3)==0) im[i]=im[i-1]; }
  VlMserFilt*f=vl_mser_new(nd,dm); CTX("image"); for(int d=0;d<nd;++d) ctx_add("%c%d",d?'x':' ',dm[d]); int delta=rnd(3)?1+rnd(8):rnd(60); double ma=rnd(2)?.75:1,mi=rnd(2)?0:rndu()*.2,mv=rnd(2)?1e4:rndu()*3,md=rnd(3)==0?1:rnd(2)?0:rndu()*.6; vl_mser_set_delta(f,delta); vl_mser_set_max_area(f,ma); vl_mser_set_min_area(f,mi); vl_mser_set_max_variation(f,mv); vl_mser_set_min_diversity(f,md); ctx_add(" delta %d max area %.9g min area %.9g max variation %.9g min diversity %.9g pixels",delta,ma,mi,mv,md); for(int i=0;i<nel;++i) ctx_add(" %d",im[i]);
  int reps=1+(rnd(4)==0); if(reps==2){ unsigned char*o=xmalloc(nel); for(int i=0;i<nel;++i) o[i]=rnd(256); vl_mser_process(f,o); if(rnd(2)) vl_mser_ell_fit(f); free(o); }
  memset(f->r,0,sizeof(VlMserReg)*nel); /* an uninitialised height is read for pixel 0 before it is visited: any value will do */
  if(rnd(2)) f->r[0].height=rnd(5); vl_mser_process(f,im);
  nr=0; for(int i=0;i<nel;++i) find(i,im[i]); 
  /* the forest: every pixel leads to the root; a parent is at least as high; areas count the pixels below */
  { int roots=0; int*cnt=xmalloc(4*nel); memset(cnt,0,4*nel); for(int i=0;i<nel;++i){ int p=i,k=0; CHECK(f->r[i].parent<(unsigned)nel,"parent of pixel %d",i); for(;;){ cnt[p]++; int q=f->r[p].parent; if(q==p) break; CHECK(im[q]>=im[p],"parent %d of pixel %d is lower",q,p); p=q; CHECK(++k<=nel,"parents of pixel %d form a cycle",i); } roots+=(int)f->r[i].parent==i; } CHECK(roots==1,"%d roots",roots); for(int i=0;i<nel;++i) CHECK((int)f->r[i].area==cnt[i],"area of node %d is %d, should be %d",i,(int)f->r[i].area,cnt[i]); CHECK(f->njoins==nel-1,"%d joins",f->njoins); free(cnt); }
  VlMserStats const*s=vl_mser_get_stats(f); CHECK(s->num_extremal==nr,"%d extremal regions, should be %d",s->num_extremal,nr);
  for(int i=0;i<nr;++i){ R[i].parent=i; int best=0; for(int j=0;j<nr;++j) if(j!=i&&R[j].val>R[i].val&&R[j].in[R[i].mem[0]]&&(R[i].parent==i||R[j].val<R[best].val)) R[i].parent=best=j; }
  for(int i=0;i<nr;++i){ int top=i; while(R[top].parent!=top&&R[R[top].parent].val<=R[i].val+delta) top=R[top].parent; R[i].var=(float)(R[top].area-R[i].area)/R[i].area; R[i].stable=1; }
  int un=0,bad=0,big=0,small=0,dup=0; for(int i=0;i<nr;++i){ int p=R[i].parent; if(R[p].val>R[i].val+1) continue; int loser=R[i].var<R[p].var?p:i; if(R[loser].stable){ R[loser].stable=0; un++; } }
  float MA=(float)ma*nel,MI=(float)mi*nel,MV=mv,MD=md; for(int v=255;v>=0;--v) for(int i=0;i<nr;++i) if(R[i].val==v&&R[i].stable){ if(R[i].var>=MV){ bad++; R[i].stable=0; continue; } if(R[i].area>MA){ big++; R[i].stable=0; continue; } if(R[i].area<MI){ small++; R[i].stable=0; continue; } if(MD<1&&R[i].parent!=i){ int p=R[i].parent; while(!R[p].stable&&R[p].parent!=p) p=R[p].parent; float div=(float)(R[p].area-R[i].area)/(float)R[p].area; if(div<MD){ dup++; R[i].stable=0; } } }
  CHECK(s->num_unstable==un&&s->num_abs_unstable==bad&&s->num_too_big==big&&s->num_too_small==small&&s->num_duplicates==dup,"statistics %d %d %d %d %d should be %d %d %d %d %d",s->num_unstable,s->num_abs_unstable,s->num_too_big,s->num_too_small,s->num_duplicates,un,bad,big,small,dup);
  int want=0; for(int i=0;i<nr;++i) want+=R[i].stable; int got=vl_mser_get_regions_num(f); CHECK(got==want,"%d regions, should be %d",got,want); vl_uint const*rg=vl_mser_get_regions(f); vl_mser_ell_fit(f); vl_mser_ell_fit(f); CHECK(vl_mser_get_ell_num(f)==got&&vl_mser_get_ell_dof(f)==nd*(nd+1)/2+nd,"ellipses"); float const*el=vl_mser_get_ell(f); int dof=vl_mser_get_ell_dof(f);
  for(int i=0;i<got;++i){ int px=rg[i]; CHECK(px>=0&&px<nel,"region index"); int k=find(px,im[px]); CHECK(R[k].stable&&R[k].val==im[px],"pixel %d does not stand for a maximally stable region",px); R[k].stable=0; double m[3]={0}; for(int j=0;j<R[k].area;++j){ int q=R[k].mem[j]; for(int d=nd-1;d>=0;--d){ m[d]+=q/st[d]; q%=st[d]; } } for(int d=0;d<nd;++d){ m[d]/=R[k].area; CHECK(fabs(el[dof*i+d]-m[d])<1e-4*(1+m[d]),"mean %d of region %d is %g, should be %g",d,i,el[dof*i+d],m[d]); } int e=nd; for(int b=0;b<nd;++b) for(int a=0;a<=b;++a,++e){ double v=0; for(int j=0;j<R[k].area;++j){ int q=R[k].mem[j]; double sub[3]; for(int d=nd-1;d>=0;--d){ sub[d]=q/st[d]; q%=st[d]; } v+=(sub[a]-m[a])*(sub[b]-m[b]); } v/=R[k].area; CHECK(fabs(el[dof*i+e]-v)<1e-3*(1+fabs(v)),"moment %d %d of region %d is %g, should be %g",a,b,i,el[dof*i+e],v); } }
  vl_mser_delete(f); free(im); CASE(); }
static void digits(void){ int n=1+rnd(4),d[4],s[4],t[4]; long v=0,m=1,w=0; for(int i=0;i<n;++i){ d[i]=1+rnd(4); s[i]=rnd(3)?d[i]-1:rnd(d[i]); v+=m*s[i]; m*=d[i]; } CTX("subscript of %d digits, value %ld of %ld",n,v,m); memcpy(t,s,sizeof t); adv(n,d,t); m=1; for(int i=0;i<n;++i){ CHECK(t[i]>=0&&t[i]<d[i],"digit out of range"); w+=m*t[i]; m*=d[i]; } CHECK(w==(v+1)%m,"next value is %ld",w); CASE(); }
static void forest(void){ int n=1+rnd(14); VlMserReg*r=xmalloc(sizeof*r*n); int root[14],perm[14]; for(int i=0;i<n;++i) perm[i]=i; for(int i=n-1;i>0;--i){ int j=rnd(i+1),t=perm[i]; perm[i]=perm[j]; perm[j]=t; } for(int i=0;i<n;++i){ int p=i&&rnd(6)?perm[rnd(2)?i-1:rnd(i)]:perm[i]; r[perm[i]].shortcut=r[perm[i]].parent=p; root[perm[i]]=p==perm[i]?p:root[p]; } int x=rnd(n); CTX("climb from %d, shortcuts",x); unsigned old[14]; int on[14]={0}; for(int i=0;i<n;++i){ old[i]=r[i].shortcut; ctx_add(" %u",old[i]); } for(unsigned p=x;;p=old[p]){ on[p]=1; if(old[p]==p) break; } CHECK((int)climb(r,x)==root[x],"not the root"); for(int i=0;i<n;++i) CHECK(r[i].shortcut==(on[i]?(unsigned)root[x]:old[i])&&1,"shortcut of %d is %u",i,r[i].shortcut); free(r); CASE(); }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); R=xmalloc(sizeof*R*(MAXN+2)); for(long t=0;t<it;++t) switch(rnd(4)){ case 0: digits(); break; case 1: forest(); break; default: one(); } return orc_end(); }
