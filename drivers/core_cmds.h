/* Commands of the agent that use the core interface (objects, methods, elements, events) instead of rbus handles. */
#include "rbuscore.h"
#include "rbuscore_message.h"
#define CMAX 64
static void core_put(rbusMessage m, char** t, int n)
{
  char ty[CMAX+1]; int k=0; for(int i=0;i<n&&k<CMAX;i++) ty[k++]=t[i][0]; ty[k]=0;
  rbusMessage_SetString(m,ty);
  for(int i=0;i<k;i++){ char* x=t[i]+2; switch(t[i][0]){
    case 's': { char* s=tokdec(x); rbusMessage_SetString(m,s); free(s); break; }
    case 'i': rbusMessage_SetInt32(m,(int32_t)strtoll(x,0,10)); break;
    case 'l': rbusMessage_SetInt64(m,strtoll(x,0,10)); break;
    case 'd': { uint64_t b=strtoull(x,0,16); double d; memcpy(&d,&b,8); rbusMessage_SetDouble(m,d); break; }
    case 'b': { size_t l=strlen(x)/2; uint8_t* b=malloc(l+1); for(size_t j=0;j<l;j++){ unsigned q; sscanf(x+2*j,"%2x",&q); b[j]=q; } rbusMessage_SetBytes(m,b,l); free(b); break; } } }
}
/* the items of a message as tokens separated by blanks; 0 when they can't be read */
static int core_get(sb_t* s, rbusMessage m)
{
  char const* ty=NULL; if(rbusMessage_GetString(m,&ty)!=RT_OK || !ty || strlen(ty)>CMAX){ sb_s(s,"unreadable"); return 0; }
  char t[CMAX+1]; strcpy(t,ty);
  for(char* c=t;*c;c++){ if(c!=t) sb_c(s,' '); switch(*c){
    case 's': { char const* x=NULL; if(rbusMessage_GetString(m,&x)!=RT_OK){ sb_s(s,"unreadable"); return 0; } sb_s(s,"s:"); sb_pct(s,x); break; }
    case 'i': { int32_t x=0; if(rbusMessage_GetInt32(m,&x)!=RT_OK){ sb_s(s,"unreadable"); return 0; } sb_f(s,"i:%d",x); break; }
    case 'l': { int64_t x=0; if(rbusMessage_GetInt64(m,&x)!=RT_OK){ sb_s(s,"unreadable"); return 0; } sb_f(s,"l:%lld",(long long)x); break; }
    case 'd': { double d=0; if(rbusMessage_GetDouble(m,&d)!=RT_OK){ sb_s(s,"unreadable"); return 0; } uint64_t b; memcpy(&b,&d,8); sb_f(s,"d:%016llx",(unsigned long long)b); break; }
    case 'b': { uint8_t const* b=NULL; uint32_t l=0; if(rbusMessage_GetBytes(m,&b,&l)!=RT_OK){ sb_s(s,"unreadable"); return 0; } sb_s(s,"b:"); for(uint32_t j=0;j<l;j++) sb_f(s,"%02x",b[j]); break; }
    default: sb_s(s,"unreadable"); return 0; } }
  return 1;
}
static int core_split(char* s, char** out){ int n=0; char* q=NULL; for(char* p=strtok_r(s," ",&q);p&&n<CMAX;p=strtok_r(NULL," ",&q)) out[n++]=p; return n; }
/* result code, then who handled it and the items it got, echoed */
static rbusMessage core_answer(char const* tag, char const* dest, char const* method, char* items, int rc)
{
  rbusMessage r; rbusMessage_Init(&r); rbusMessage_SetInt32(r,rc);
  char* t[CMAX]; sb_t a={0},b={0},c={0}; sb_s(&a,"s:"); sb_pct(&a,tag); sb_s(&b,"s:"); sb_pct(&b,dest); sb_s(&c,"s:"); sb_pct(&c,method);
  sb_c(&a,0); sb_c(&b,0); sb_c(&c,0); t[0]=a.p; t[1]=b.p; t[2]=c.p; char* cp=strdup(items); char* u[CMAX]; int n=core_split(cp,u); for(int i=0;i<n&&i+3<CMAX;i++) t[3+i]=u[i];
  core_put(r,t,n+3>CMAX?CMAX:n+3); free(cp); free(a.p); free(b.p); free(c.p); return r;
}
typedef struct { rtMessageHeader hdr; rbusMessage r; int ms; } core_late;
static pthread_mutex_t core_lm=PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t core_lc=PTHREAD_COND_INITIALIZER; static int core_lates;
static void core_late_add(int n){ pthread_mutex_lock(&core_lm); core_lates+=n; pthread_cond_broadcast(&core_lc); pthread_mutex_unlock(&core_lm); }
static void* core_late_thread(void* p){ core_late* l=p; xsleep(l->ms); rbus_sendResponse(&l->hdr,l->r); free(l); core_late_add(-1); return NULL; }
static int core_handler(const char* dest, const char* method, rbusMessage in, void* user, rbusMessage* out, const rtMessageHeader* hdr)
{
  sb_t it={0}; int pull=!strcmp(method,METHOD_GETPARAMETERVALUES), rc=0, none=0, late=0; char nest[600]="";
  if(!strcmp(method,METHOD_SUBSCRIBE)||!strcmp(method,METHOD_UNSUBSCRIBE)){ rbusMessage_Init(out); rbusMessage_SetInt32(*out,RBUSCORE_ERROR_UNSUPPORTED_EVENT); return 0; }
  if(!pull) core_get(&it,in); 
  sb_c(&it,0);
  sb_t s; ev_begin(&s,"ccall"); sb_pct(&s,(char*)user); sb_c(&s,' '); sb_pct(&s,dest); sb_c(&s,' '); sb_pct(&s,method); sb_c(&s,' '); sb_s(&s,it.p); emit(&s);
  char* o=strstr(it.p,"s:%21"); /* instructions: a string item starting with an exclamation mark */
  if(o){ char w[700]; snprintf(w,sizeof w,"%s",o+5); char* sp=strchr(w,' '); if(sp) *sp=0; char* x=tokdec(w);
    if(!strncmp(x,"ms=",3)) xsleep(atoi(x+3)); else if(!strncmp(x,"rc=",3)) rc=atoi(x+3); else if(!strcmp(x,"none")) none=1; else if(!strncmp(x,"late=",5)) late=1+atoi(x+5); else if(!strncmp(x,"nest=",5)) snprintf(nest,sizeof nest,"%s",x+5);
    free(x); }
  if(nest[0]){ rbusMessage q,a=NULL; rbusMessage_Init(&q); char* t[1]={"s:nested"}; core_put(q,t,1); int e=rbus_invokeRemoteMethod(nest,"nested",q,5000,&a);
    sb_t y={0}; sb_s(&y,it.p); sb_f(&y," i:%d",e); if(e==0){ int32_t z=0; rbusMessage_GetInt32(a,&z); sb_c(&y,' '); core_get(&y,a); rbusMessage_Release(a); } sb_c(&y,0); free(it.p); it=y; }
  if(late){ core_late* l=calloc(1,sizeof *l); l->hdr=*hdr; l->ms=late-1; l->r=core_answer(user,dest,method,it.p,rc); free(it.p); pthread_t th; core_late_add(1); pthread_create(&th,NULL,core_late_thread,l); pthread_detach(th); return RBUSCORE_SUCCESS_ASYNC; }
  if(!none) *out=core_answer(user,dest,method,it.p,rc);
  free(it.p); return 0;
}
static int core_event(const char* object, const char* event, rbusMessage m, void* user)
{
  sb_t s; ev_begin(&s,"cev"); sb_pct(&s,(char*)user); sb_c(&s,' '); sb_pct(&s,object); sb_c(&s,' '); sb_pct(&s,event); sb_c(&s,' '); core_get(&s,m); emit(&s); return 0;
}
static int core_sub(const char* object, const char* event, const char* listener, int added, const rbusMessage payload, void* user)
{
  (void)payload; sb_t s; ev_begin(&s,"csub"); sb_pct(&s,(char*)user); sb_c(&s,' '); sb_pct(&s,object); sb_c(&s,' '); sb_pct(&s,event); sb_c(&s,' '); sb_pct(&s,listener); sb_f(&s," %d",added); emit(&s); return 0;
}
static int core_names(sb_t* r, int rc, int n, char** l){ if(rc==0) for(int i=0;i<n;i++){ sb_pct(r,l[i]); sb_c(r,' '); free(l[i]); } if(rc==0&&n) free(l); return rc; }
/* tags and user data are kept for the life of the process */
static char* ckeep(char const* s)
{
  static struct ck { struct ck* n; char s[]; } *l; static pthread_mutex_t m=PTHREAD_MUTEX_INITIALIZER; struct ck* p;
  pthread_mutex_lock(&m); for(p=l;p&&strcmp(p->s,s);p=p->n); if(!p){ p=malloc(sizeof *p+strlen(s)+1); strcpy(p->s,s); p->n=l; l=p; } pthread_mutex_unlock(&m); return p->s;
}
static int core_cmd(char const* c, char** v, int k, sb_t* r)
{
  char* a[4]={0}; int rc=0, n=0; char** l=NULL;
  for(int i=0;i<4&&i<k;i++) a[i]=tokdec(v[i]);
  if(IS("open")) rc=rbus_openBrokerConnection(a[0]);
  else if(IS("close")){ pthread_mutex_lock(&core_lm); while(core_lates) pthread_cond_wait(&core_lc,&core_lm); pthread_mutex_unlock(&core_lm); rc=rbus_closeBrokerConnection(); }
  else if(IS("obj")) rc=rbus_registerObj(a[0],core_handler,ckeep(a[1]));            /* name tag */
  else if(IS("unobj")) rc=rbus_unregisterObj(a[0]);
  else if(IS("meth")) rc=rbus_registerMethod(a[0],a[1],core_handler,ckeep(a[2]));  /* object method tag */
  else if(IS("unmeth")) rc=rbus_unregisterMethod(a[0],a[1]);
  else if(IS("tab")||IS("untab")){ int m=atoi(v[1]); rbus_method_table_entry_t* t=calloc(m+1,sizeof *t); for(int i=0;i<m;i++){ t[i].method=tokdec(v[2+2*i]); t[i].user_data=tokdec(v[3+2*i]); t[i].callback=core_handler; }
    rc=IS("tab")?rbus_registerMethodTable(a[0],t,m):rbus_unregisterMethodTable(a[0],t,m); for(int i=0;i<m;i++) free((char*)t[i].method); free(t); }
  else if(IS("el")) rc=rbus_addElement(a[0],a[1]);
  else if(IS("unel")) rc=rbus_removeElement(a[0],a[1]);
  else if(IS("inv")){ /* destination method timeout item* */ rbusMessage q,x=NULL; rbusMessage_Init(&q); core_put(q,v+3,k-3); rc=rbus_invokeRemoteMethod(a[0],a[1],q,strtoul(v[2],0,10),&x);
    if(rc==0){ int32_t z=0; if(rbusMessage_GetInt32(x,&z)!=RT_OK) sb_s(r,"unreadable"); else { sb_f(r,"%d ",z); if(z!=RBUSCORE_ERROR_UNSUPPORTED_METHOD) core_get(r,x); } rbusMessage_Release(x); } else if(x) sb_s(r,"message-with-error"); }
  else if(IS("push")){ rbusMessage q; rbusMessage_Init(&q); core_put(q,v+2,k-2); rc=v[1][0]=='-'?rbus_pushObjNoAck(a[0],q):rbus_pushObj(a[0],q,atoi(v[1])); }
  else if(IS("pull")){ rbusMessage x=NULL; rc=rbus_pullObj(a[0],atoi(v[1]),&x); if(rc==0){ core_get(r,x); rbusMessage_Release(x); } else if(x) sb_s(r,"message-with-error"); }
  else if(IS("ev")) rc=rbus_registerEvent(a[0],a[1],v[2][0]=='-'?NULL:core_sub,v[2][0]=='-'?NULL:ckeep(a[2])); /* object event tag */
  else if(IS("unev")) rc=rbus_unregisterEvent(a[0],a[1]);
  else if(IS("sub")){ int pe=0; rc=rbus_subscribeToEventTimeout(a[0],a[1],core_event,NULL,ckeep(a[2]),&pe,atoi(v[3]),false,NULL,false); sb_f(r,"%d",pe); } /* object event ud timeout */
  else if(IS("unsub")) rc=rbus_unsubscribeFromEvent(a[0],a[1],NULL,false);
  else if(IS("pub")){ rbusMessage q; rbusMessage_Init(&q); core_put(q,v+2,k-2); rc=rbus_publishEvent(a[0],a[1],q); rbusMessage_Release(q); }
  else if(IS("pubn")){ /* object event from count gap_us */ int f=atoi(v[2]),m=atoi(v[3]),g=atoi(v[4]); for(int i=0;i<m&&rc==0;i++){ rbusMessage q; rbusMessage_Init(&q); char w[32]; snprintf(w,32,"i:%d",f+i); char* t[1]={w}; core_put(q,t,1); rc=rbus_publishEvent(a[0],a[1],q); rbusMessage_Release(q); if(g) usleep(g); } }
  else if(IS("wild")) { rc=rbus_discoverWildcardDestinations(a[0],&n,&l); core_names(r,rc,n,l); }
  else if(IS("elems")) { rc=rbus_discoverObjectElements(a[0],&n,&l); core_names(r,rc,n,l); }
  else if(IS("owner")) { rc=rbus_discoverElementObjects(a[0],&n,&l); core_names(r,rc,n,l); }
  else if(IS("comps")) { rc=rbus_discoverRegisteredComponents(&n,&l); core_names(r,rc,n,l); }
  else rc=-99;
  for(int i=0;i<4;i++) free(a[i]);
  return rc;
}
