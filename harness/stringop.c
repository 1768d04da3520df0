#include "orc.h"
#include <vl/stringop.h>
#include <ctype.h>
static char* rstr(const char*al,int maxn){ int n=rnd(maxn+1); char*s=xmalloc(n+1); for(int i=0;i<n;++i) s[i]=al[rnd(strlen(al))]; s[n]=0; return s; }
/* out: expected untruncated text */
static void check_out(const char*what,const char*exp,size_t explen,size_t ret,char*dst,size_t cap){
  CHECK(ret==explen,"%s: returned %zu, untruncated length is %zu (expected text \"%s\")",what,ret,explen,exp);
  if(cap>0){ size_t k=explen<cap-1?explen:cap-1; CHECK(dst[k]==0,"%s: not terminated at %zu",what,k); CHECK(memcmp(dst,exp,k)==0,"%s: wrong content \"%.*s\" expected \"%.*s\"",what,(int)k,dst,(int)k,exp);
    for(size_t i=k+1;i<cap;++i) CHECK(dst[i]==(char)0x5a,"%s: wrote past the terminator at %zu",what,i);} }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it);
  VlEnumerator en[]={{"Alpha",3},{"beta",-1},{"ALPHA",7},{"gamma",3},{"Beta",100},{0,0}};
  for(long t=0;t<it*20;++t){
    int usenull=rnd(8)==0; size_t cap=usenull?0:rnd(14); char*dst=usenull?0:xmalloc(cap); if(dst) memset(dst,0x5a,cap);
    char exp[4096]; size_t r;
    int op=rnd(8);
    if(op==0){ char*s=rstr("ab/.",12); CTX("copy cap=%zu null=%d src=\"%s\"",cap,usenull,s); r=vl_string_copy(dst,cap,s); check_out("vl_string_copy",s,strlen(s),r,dst,cap); free(s);}
    else if(op==1){ char*s=rstr("abc",12); size_t n=strlen(s),b=rnd(n+1),e=b+rnd(n-b+1)+rnd(2)*0; if(rnd(6)==0&&n){ s[rnd(n)]=0; }
      CTX("copy_sub cap=%zu [%zu,%zu) of \"%s\"",cap,b,e,s); size_t k=0; while(b+k<e&&s[b+k]){exp[k]=s[b+k];++k;} exp[k]=0; r=vl_string_copy_sub(dst,cap,s+b,s+e); check_out("vl_string_copy_sub",exp,k,r,dst,cap); free(s);}
    else if(op==2){ char*s=rstr("a./\\b.",14); int mx=rnd(5); CTX("basename cap=%zu max=%d src=\"%s\"",cap,mx,s); size_t n=strlen(s),b=0,e=n; for(size_t i=0;i<n;++i) if(s[i]=='/'||s[i]=='\\') b=i+1;
      for(int j=0;j<mx;++j){ size_t q=e; while(q>b && s[q-1]!='.') --q; if(q>b) e=q-1; else break; }
      memcpy(exp,s+b,e-b); exp[e-b]=0; r=vl_string_basename(dst,cap,s,mx); check_out("vl_string_basename",exp,e-b,r,dst,cap); free(s);}
    else if(op==3){ char*s=rstr("a%\\b",12); char*rp=rstr("xy%",4); char w='%',es='\\'; if(rnd(10)==0) es='%'; CTX("wildcard cap=%zu src=\"%s\" repl=\"%s\" w=%c esc=%c",cap,s,rp,w,es); size_t k=0; int esc=0;
      for(char*p=s;*p;++p){ if(!esc&&*p==es){esc=1;continue;} if(!esc&&*p==w){ strcpy(exp+k,rp); k+=strlen(rp);} else exp[k++]=*p; esc=0;} exp[k]=0;
      r=vl_string_replace_wildcard(dst,cap,s,w,es,rp); check_out("vl_string_replace_wildcard",exp,k,r,dst,cap); free(s); free(rp);}
    else if(op==4){ char*s=rstr("ab",8); size_t n=strlen(s); char c="abc"[rnd(3)]; size_t e=rnd(n+1); CTX("find_char_rev '%c' in first %zu of \"%s\"",c,e,s); char*q=0; for(size_t i=0;i<e;++i) if(s[i]==c) q=s+i; CHECK(vl_string_find_char_rev(s,s+e,c)==q,"vl_string_find_char_rev: wrong position"); free(s);}
    else if(op==5){ char*s=rstr("ab\xff\x01",20); CTX("length \"%s\"",s); CHECK(vl_string_length(s)==strlen(s),"vl_string_length"); free(s);}
    else if(op==6){ char*a=rstr("aAbB@`[{\xc1\xe1",6),*b=rnd(3)?rstr("aAbB@`[{\xc1\xe1",6):strdup(a); if(rnd(3)==0) for(char*p=b;*p;++p) if(rnd(2)) *p=(char)(islower((unsigned char)*p)?toupper((unsigned char)*p):tolower((unsigned char)*p));
      CTX("casei \"%s\" \"%s\"",a,b); size_t k=0; while(tolower((unsigned char)a[k])==tolower((unsigned char)b[k])&&a[k]) ++k; int ex=tolower((unsigned char)a[k])-tolower((unsigned char)b[k]);
      CHECK(vl_string_casei_cmp(a,b)==ex,"vl_string_casei_cmp: %d expected %d",vl_string_casei_cmp(a,b),ex); free(a); free(b);}
    else { const char*nm[]={"Alpha","alpha","beta","BETA","Beta","delta","gamma",""}; const char*q=nm[rnd(8)]; vl_index vals[]={3,-1,7,100,0,2}; vl_index v=vals[rnd(6)]; CTX("enumeration %s %d",q,(int)v);
      VlEnumerator*e1=0,*e2=0,*e3=0; for(int i=4;i>=0;--i){ if(!strcmp(en[i].name,q)) e1=en+i; if(!strcasecmp(en[i].name,q)) e2=en+i; if(en[i].value==v) e3=en+i; }
      CHECK(vl_enumeration_get(en,q)==e1,"vl_enumeration_get"); CHECK(vl_enumeration_get_casei(en,q)==e2,"vl_enumeration_get_casei"); CHECK(vl_enumeration_get_by_value(en,v)==e3,"vl_enumeration_get_by_value");}
    CASE(); free(dst);
  }
  return orc_end(); }
