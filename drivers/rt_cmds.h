/* Commands of the agent that use the messaging layer alone: connections, listeners, messages and requests. */
#include "rtConnection.h"
#include "rtMessage.h"
#define RTN 16
typedef struct { int c; long ud; } rt_cl;
static rtConnection RT[RTN];
static pthread_mutex_t rt_lm=PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t rt_lc=PTHREAD_COND_INITIALIZER; static int rt_lates[RTN];
typedef struct { rtMessageHeader hdr; uint8_t* p; uint32_t n; int c,ms,json; } rt_late;
static void rt_answer(int c, rtMessageHeader const* hdr, uint8_t* p, uint32_t n, int json)
{
  if(json){ rtMessage m=NULL; if(rtMessage_FromBytes(&m,p,n)==RT_OK){ rtConnection_SendResponse(RT[c],hdr,m,1000); rtMessage_Release(m); } }
  else rtConnection_SendBinaryResponse(RT[c],hdr,p,n,1000);
}
static void* rt_late_thread(void* q){ rt_late* l=q; xsleep(l->ms); rt_answer(l->c,&l->hdr,l->p,l->n,l->json); int c=l->c; free(l->p); free(l); pthread_mutex_lock(&rt_lm); rt_lates[c]--; pthread_cond_broadcast(&rt_lc); pthread_mutex_unlock(&rt_lm); return NULL; }
static void rt_hex(sb_t* s, uint8_t const* b, uint32_t n){ char* h=malloc(2*n+1); for(uint32_t i=0;i<n;i++){ h[2*i]="0123456789abcdef"[b[i]>>4]; h[2*i+1]="0123456789abcdef"[b[i]&15]; } h[2*n]=0; sb_s(s,n?h:"~"); free(h); }
/* What a listener does with a request is written at the start of its content: "!none|", "!ms=5|", "!late=5|", "!empty|", "!nest=topic|"; a JSON message has it in its member "do". */
static void rt_cb(rtMessageHeader const* hdr, uint8_t const* b, uint32_t n, void* closure)
{
  rt_cl* k=closure; int req=(hdr->flags&rtMessageFlags_Request)!=0, json=!(hdr->flags&rtMessageFlags_RawBinary);
  sb_t s; ev_begin(&s,"rt"); sb_f(&s,"%d %ld ",k->c,k->ud); sb_pct(&s,hdr->topic); sb_f(&s," %d%d ",req,json); sb_pct(&s,hdr->reply_topic); sb_c(&s,' '); rt_hex(&s,b,n); emit(&s);
  if(!req) return;
  char ins[300]=""; rtMessage m=NULL; char const* x=NULL;
  if(json){ if(rtMessage_FromBytes(&m,b,n)!=RT_OK) return; if(rtMessage_GetString(m,"do",&x)==RT_OK&&x) snprintf(ins,sizeof ins,"%s",x); }
  else if(n&&b[0]=='!'){ uint32_t i=0; for(;i<n&&i<sizeof ins-1&&b[i]!='|';i++) ins[i]=b[i]; ins[i]=0; }
  if(!strcmp(ins,"!none")){ if(m) rtMessage_Release(m); return; }
  if(!strncmp(ins,"!ms=",4)) xsleep(atoi(ins+4));
  uint8_t* nb=NULL; uint32_t nn=0;
  if(!strncmp(ins,"!nest=",6)){ int e=rtConnection_SendBinaryRequest(RT[k->c],(uint8_t const*)"inner",5,ins+6,&nb,&nn,5000); if(e){ nb=malloc(20); nn=sprintf((char*)nb,"error %d",e); } }
  uint8_t* out; uint32_t on;
  if(json){ rtMessage_SetInt32(m,"by",(int)k->ud); if(nb){ char* z=malloc(nn+1); memcpy(z,nb,nn); z[nn]=0; rtMessage_SetString(m,"inner",z); free(z); } rtMessage_ToByteArray(m,&out,&on); rtMessage_Release(m); }
  else if(!strcmp(ins,"!empty")){ out=malloc(1); on=0; }
  else { char h[32]; int hl=sprintf(h,"%ld|",k->ud); out=malloc(hl+n+nn+1); memcpy(out,h,hl); for(uint32_t i=0;i<n;i++) out[hl+i]=b[n-1-i]; if(nn) memcpy(out+hl+n,nb,nn); on=hl+n+nn; }
  free(nb);
  if(!strncmp(ins,"!late=",6)){ rt_late* l=calloc(1,sizeof *l); l->hdr=*hdr; l->p=out; l->n=on; l->c=k->c; l->ms=atoi(ins+6); l->json=json; pthread_mutex_lock(&rt_lm); rt_lates[k->c]++; pthread_mutex_unlock(&rt_lm); pthread_t th; pthread_create(&th,NULL,rt_late_thread,l); pthread_detach(th); return; }
  rt_answer(k->c,hdr,out,on,json); free(out);
}
/* closures are kept for the life of the process */
static rt_cl* rt_keep(int c, long ud){ static struct rk { struct rk* n; rt_cl k; } *all; static pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER; struct rk* r=malloc(sizeof *r); r->k.c=c; r->k.ud=ud; pthread_mutex_lock(&mu); r->n=all; all=r; pthread_mutex_unlock(&mu); return &r->k; }
static int rt_cmd(char const* c, char** v, int k, sb_t* r)
{
  char* a[6]={0}; int rc=0, i=atoi(v[0])%RTN; 
  for(int j=1;j<6&&j<k;j++) a[j]=tokdec(v[j]);
  if(IS("new")) rc=rtConnection_Create(&RT[i],a[1],a[2]);
  else if(IS("newcfg")){ rtMessage m=NULL; rc=rtMessage_FromBytes(&m,(uint8_t*)a[1],strlen(a[1])+1); if(!rc){ rc=rtConnection_CreateWithConfig(&RT[i],m); rtMessage_Release(m); } }
  else if(IS("free")){ pthread_mutex_lock(&rt_lm); while(rt_lates[i]) pthread_cond_wait(&rt_lc,&rt_lm); pthread_mutex_unlock(&rt_lm); rc=rtConnection_Destroy(RT[i]); RT[i]=NULL; }
  else if(IS("lis")){ rt_cl* q=rt_keep(i,atol(a[2])); if(a[3]) rc=rtConnection_AddListenerWithId(RT[i],a[1],strtoul(a[3],0,10),rt_cb,q); else rc=rtConnection_AddListener(RT[i],a[1],rt_cb,q); }
  else if(IS("unlis")){ if(a[2]) rc=rtConnection_RemoveListenerWithId(RT[i],a[1],strtoul(a[2],0,10)); else rc=rtConnection_RemoveListener(RT[i],a[1]); }
  else if(IS("alias")) rc=rtConnection_AddAlias(RT[i],a[1],a[2]);
  else if(IS("unalias")) rc=rtConnection_RemoveAlias(RT[i],a[1],a[2]);
  else if(IS("default")) rc=atol(a[1])<0?rtConnection_AddDefaultListener(RT[i],NULL,NULL):rtConnection_AddDefaultListener(RT[i],rt_cb,rt_keep(i,atol(a[1])));
  else if(IS("send")||IS("req")){ rtMessage m=NULL; rc=rtMessage_FromBytes(&m,(uint8_t*)a[2],strlen(a[2])+1);
    if(!rc){ if(IS("send")) rc=a[3]?rtConnection_SendMessageDirect(RT[i],m,a[1],a[3]):rtConnection_SendMessage(RT[i],m,a[1]);
      else { rtMessage o=NULL; rc=rtConnection_SendRequest(RT[i],m,a[1],&o,atoi(a[3])); if(!rc){ char* s=NULL; uint32_t n=0; rtMessage_ToString(o,&s,&n); sb_pct(r,s); free(s); rtMessage_Release(o); } }
      rtMessage_Release(m); } else rc=-998; }
  else if(IS("sendb")||IS("reqb")){ size_t l; uint8_t* b=hexdec(v[2],&l);
    if(IS("sendb")) rc=a[3]?rtConnection_SendBinaryDirect(RT[i],b,l,a[1],a[3]):rtConnection_SendBinary(RT[i],b,l,a[1]);
    else { uint8_t* o=NULL; uint32_t n=0; rc=rtConnection_SendBinaryRequest(RT[i],b,l,a[1],&o,&n,atoi(a[3])); if(!rc){ rt_hex(r,o,n); free(o); } }
    free(b); }
  else if(IS("addr")) sb_pct(r,rtConnection_GetReturnAddress(RT[i]));
  else if(IS("conn")) rc=rtConnection_IsConnected(RT[i]);
  else if(IS("stop")) rc=rtConnection_StopDispatch(RT[i]);
  else rc=-999;
  for(int j=0;j<6;j++) free(a[j]);
  return rc;
}
