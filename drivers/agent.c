/* A bus component driven over stdin: exposes the public rbus API and logs handler calls, callbacks and results. */
#include "codec.h"
#include <pthread.h>
#include <time.h>
#include <unistd.h>
#include <stdarg.h>
#include <dirent.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/resource.h>
#include "rbus_message.h"

static pthread_mutex_t outm = PTHREAD_MUTEX_INITIALIZER;
static uint64_t now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return (uint64_t)t.tv_sec*1000000000ull+t.tv_nsec; }
static void emit(sb_t* s)
{
  sb_c(s,'\n');
  pthread_mutex_lock(&outm);
  size_t o=0; while(o<s->n){ ssize_t k=write(3,s->p+o,s->n-o); if(k<=0) _exit(96); o+=k; }
  pthread_mutex_unlock(&outm);
  free(s->p); s->p=NULL; s->n=s->cap=0;
}
static void ev_begin(sb_t* s, const char* kind){ memset(s,0,sizeof *s); sb_f(s,"E %s %" PRIu64 " ",kind,now()); }

/* ------------------------------------------------------------------ provider store */
typedef struct ent { char* name; rbusValue_t val; int set_rc,set_n,get_rc,get_n,set_ms,get_ms,sub_rc,sub_ms,autopub,add_rc,rem_rc,m_rc,m_ms,quiet,set_skip; char* nest; uint32_t inst; struct ent* next; } ent;
#define NB 1024
static ent* tab[NB];
static pthread_mutex_t stm = PTHREAD_MUTEX_INITIALIZER;
static int logtrace=0, handlelog=1;
static unsigned hsh(const char* s){ unsigned h=5381; while(*s) h=h*33+(unsigned char)*s++; return h%NB; }
static ent* ent_get(const char* n, int create)
{
  unsigned h=hsh(n); ent* e;
  for(e=tab[h];e;e=e->next) if(!strcmp(e->name,n)) return e;
  if(!create) return NULL;
  e=calloc(1,sizeof *e); e->name=strdup(n); e->autopub=-1; e->next=tab[h]; tab[h]=e; return e;
}
static void xsleep(int ms){ if(ms>0) usleep(ms*1000); }
#define IS(x) (!strcmp(c,x))
#include "core_cmds.h"
#include "rt_cmds.h"

#define NH 64
static _Atomic(rbusHandle_t) H[NH];
static int hidx(rbusHandle_t h){ for(int i=0;i<NH;i++) if(H[i]==h) return i; return -1; }
static void put_trace(sb_t* s, rbusHandle_t h)
{
  char a[1024]="",b[1024]=""; rbusHandle_GetTraceContextAsString(h,a,sizeof a,b,sizeof b); sb_c(s,' '); sb_pct(s,a); sb_c(s,' '); sb_pct(s,b);
}
/* dynamic tables: the rows that a table is to have, and (synchronised ones) those it was given so far */
typedef struct dyn { char* table; int nw,nh,np; uint32_t want[64],have[64]; char* prop[8]; int serves; struct dyn* next; } dyn;
static dyn* dyns;
static dyn* dyn_get(const char* t, int create)
{
  for(dyn* d=dyns;d;d=d->next) if(!strcmp(d->table,t)) return d;
  if(!create) return NULL;
  dyn* d=calloc(1,sizeof *d); d->table=strdup(t); d->next=dyns; dyns=d; return d;
}
static int dyn_absent(const char* n) /* whether n lies in a row that a serving table doesn't have */
{
  for(dyn* d=dyns;d;d=d->next) { size_t l=strlen(d->table); if(d->serves && !strncmp(n,d->table,l)){ uint32_t i=strtoul(n+l,0,10); int k=0; while(k<d->nw && d->want[k]!=i) k++; if(k==d->nw) return 1; } }
  return 0;
}
static rbusError_t syncH(rbusHandle_t h, char const* name)
{
  char t[300]; snprintf(t,sizeof t,"%s%s",name,name[0]&&name[strlen(name)-1]=='.'?"":".");
  uint32_t add[64],del[64]; int na=0,nd=0; sb_t s;
  pthread_mutex_lock(&stm); dyn* d=dyn_get(t,0);
  if(d)
  {
    for(int i=0;i<d->nw;i++){ int k=0; while(k<d->nh && d->have[k]!=d->want[i]) k++; if(k==d->nh) add[na++]=d->want[i]; }
    for(int i=0;i<d->nh;i++){ int k=0; while(k<d->nw && d->want[k]!=d->have[i]) k++; if(k==d->nw) del[nd++]=d->have[i]; }
    memcpy(d->have,d->want,sizeof d->have); d->nh=d->nw;
    for(int i=0;i<nd;i++) { char r[320]; snprintf(r,sizeof r,"%s%u.",t,del[i]); for(dyn* x=dyns;x;x=x->next) if(!strncmp(x->table,r,strlen(r))) x->nh=0; } 
  }
  pthread_mutex_unlock(&stm);
  ev_begin(&s,"sync"); sb_f(&s,"%d ",hidx(h)); sb_pct(&s,name); sb_f(&s," %d %d",na,nd); emit(&s);
  for(int i=0;i<nd;i++){ char r[320]; snprintf(r,sizeof r,"%s%u",t,del[i]); int rc=rbusTable_unregisterRow(h,r); if(rc){ ev_begin(&s,"syncfail"); sb_pct(&s,r); sb_f(&s," %d",rc); emit(&s); } }
  for(int i=0;i<na;i++){ int rc=rbusTable_registerRow(h,t,add[i],NULL); if(rc){ ev_begin(&s,"syncfail"); sb_pct(&s,t); sb_f(&s,"%u %d",add[i],rc); emit(&s); } }
  return RBUS_ERROR_SUCCESS;
}
static rbusError_t tgetH(rbusHandle_t h, rbusProperty_t p, rbusGetHandlerOptions_t* o)
{ /* a table that answers for all its rows */
  const char* n=rbusProperty_GetName(p); sb_t s; (void)o; ev_begin(&s,"tget"); sb_f(&s,"%d ",hidx(h)); sb_pct(&s,n); emit(&s);
  pthread_mutex_lock(&stm); dyn* d=dyn_get(n,0); ent* e=ent_get(n,0); int rc=e?e->get_rc:0;
  if(d && !rc) for(int i=0;i<d->nw;i++) for(int j=0;j<d->np;j++)
  {
    char q[320]; snprintf(q,sizeof q,"%s%u.%s",n,d->want[i],d->prop[j]); e=ent_get(q,0); rbusValue_t v;
    if(e && e->val){ v=e->val; rbusValue_Retain(v); } else { rbusValue_Init(&v); rbusValue_SetString(v,q); }
    rbusProperty_t x; rbusProperty_Init(&x,q,v); rbusProperty_Append(p,x); rbusProperty_Release(x); rbusValue_Release(v);
  }
  /* and for the tables within its rows */
  if(d && !rc) for(int i=0;i<d->nw;i++)
  {
    char row[320]; snprintf(row,sizeof row,"%s%u.",n,d->want[i]);
    for(dyn* w=dyns;w;w=w->next) if(w->serves && !strncmp(w->table,row,strlen(row))) for(int a=0;a<w->nw;a++) for(int j=0;j<w->np;j++)
    {
      char q[400]; snprintf(q,sizeof q,"%s%u.%s",w->table,w->want[a],w->prop[j]); e=ent_get(q,0); rbusValue_t v;
      if(e && e->val){ v=e->val; rbusValue_Retain(v); } else { rbusValue_Init(&v); rbusValue_SetString(v,q); }
      rbusProperty_t x; rbusProperty_Init(&x,q,v); rbusProperty_Append(p,x); rbusProperty_Release(x); rbusValue_Release(v);
    }
  }
  pthread_mutex_unlock(&stm);
  return rc;
}
static rbusError_t getH(rbusHandle_t h, rbusProperty_t p, rbusGetHandlerOptions_t* o)
{
  const char* n=rbusProperty_GetName(p); int rc=0,ms=0,quiet=0;
  if(dyns){ pthread_mutex_lock(&stm); if(dyn_absent(n)) rc=RBUS_ERROR_ELEMENT_DOES_NOT_EXIST; pthread_mutex_unlock(&stm); if(rc) return rc; }
  pthread_mutex_lock(&stm); ent* e=ent_get(n,0); if(e){ ms=e->get_ms; quiet=e->quiet; if(e->get_rc && e->get_n!=0){ rc=e->get_rc; if(e->get_n>0) e->get_n--; } } pthread_mutex_unlock(&stm);
  xsleep(ms);
  sb_t s; 
  if(handlelog && !quiet){ ev_begin(&s,"get"); sb_f(&s,"%d ",hidx(h)); sb_pct(&s,n); sb_c(&s,' '); sb_pct(&s,o?o->requestingComponent:NULL); if(logtrace) put_trace(&s,h); emit(&s); }
  if(rc) return rc;
  if(e && e->nest)
  { /* the answer is another component's, asked for right here */
    rbusValue_t v=NULL; int nrc=rbus_get(h,e->nest,&v); if(nrc){ if(v) rbusValue_Release(v); return nrc; } rbusProperty_SetValue(p,v); rbusValue_Release(v); return RBUS_ERROR_SUCCESS;
  }
  pthread_mutex_lock(&stm); e=ent_get(n,0);
  if(e && e->val) rbusProperty_SetValue(p,e->val);
  else { rbusValue_t v; rbusValue_Init(&v); rbusValue_SetString(v,n); rbusProperty_SetValue(p,v); rbusValue_Release(v); }
  pthread_mutex_unlock(&stm);
  return RBUS_ERROR_SUCCESS;
}
static rbusError_t setH(rbusHandle_t h, rbusProperty_t p, rbusSetHandlerOptions_t* o)
{
  const char* n=rbusProperty_GetName(p); rbusValue_t v=rbusProperty_GetValue(p); int rc=0;
  if(dyns){ pthread_mutex_lock(&stm); if(dyn_absent(n)) rc=RBUS_ERROR_ELEMENT_DOES_NOT_EXIST; pthread_mutex_unlock(&stm); if(rc) return rc; }
  pthread_mutex_lock(&stm); ent* e=ent_get(n,1); int ms=e->set_ms; if(e->set_skip>0) e->set_skip--; else if(e->set_rc && e->set_n!=0){ rc=e->set_rc; if(e->set_n>0) e->set_n--; } pthread_mutex_unlock(&stm);
  xsleep(ms);
  sb_t s; ev_begin(&s,"set"); sb_f(&s,"%d ",hidx(h)); sb_pct(&s,n); sb_c(&s,' '); ser_value(&s,v); sb_f(&s," %d %u ",o?(int)o->commit:-1,o?o->sessionId:0); sb_pct(&s,o?o->requestingComponent:NULL); sb_f(&s," %d",rc);
  if(logtrace) put_trace(&s,h);
  pthread_mutex_lock(&stm);
  if(!rc && v){ rbusValue_Retain(v); if(e->val) rbusValue_Release(e->val); e->val=v; }
  pthread_mutex_unlock(&stm);
  emit(&s);
  return rc;
}
static rbusError_t addH(rbusHandle_t h, char const* t, char const* alias, uint32_t* inst)
{
  pthread_mutex_lock(&stm); ent* e=ent_get(t,1); int rc=e->add_rc; if(!rc) *inst=++e->inst; pthread_mutex_unlock(&stm);
  sb_t s; ev_begin(&s,"addrow"); sb_f(&s,"%d ",hidx(h)); sb_pct(&s,t); sb_c(&s,' '); sb_pct(&s,alias); sb_f(&s," %u %d",rc?0:*inst,rc); emit(&s);
  return rc;
}
static rbusError_t remH(rbusHandle_t h, char const* r)
{
  pthread_mutex_lock(&stm); ent* e=ent_get(r,0); int rc=e?e->rem_rc:0; pthread_mutex_unlock(&stm);
  sb_t s; ev_begin(&s,"remrow"); sb_f(&s,"%d ",hidx(h)); sb_pct(&s,r); sb_f(&s," %d",rc); emit(&s); return rc;
}
static rbusError_t subH(rbusHandle_t h, rbusEventSubAction_t a, char const* n, rbusFilter_t f, int32_t interval, bool* autoPublish)
{
  pthread_mutex_lock(&stm); ent* e=ent_get(n,0); int rc=(e&&a==RBUS_EVENT_ACTION_SUBSCRIBE)?e->sub_rc:0; int ms=(e&&a==RBUS_EVENT_ACTION_SUBSCRIBE)?e->sub_ms:0; if(e && e->autopub>=0) *autoPublish=e->autopub; pthread_mutex_unlock(&stm);
  xsleep(ms);
  sb_t s; ev_begin(&s,"subh"); sb_f(&s,"%d %d ",hidx(h),(int)a); sb_pct(&s,n); sb_c(&s,' '); ser_filter(&s,f); sb_f(&s," %d %d",interval,rc); emit(&s); return rc;
}
typedef struct { rbusMethodAsyncHandle_t ah; rbusObject_t out; int rc, ms; } defer_t;
static void* deferT(void* a){ defer_t* d=a; xsleep(d->ms); 
  rbusMethod_SendAsyncResponse(d->ah,d->rc,d->out); if(d->out) rbusObject_Release(d->out); free(d); return NULL; }
static int ival(rbusObject_t o, const char* n, int def){ rbusValue_t v=o?rbusObject_GetValue(o,n):NULL; return v && rbusValue_GetType(v)==RBUS_INT32 ? rbusValue_GetInt32(v) : def; }
static rbusError_t methH(rbusHandle_t h, char const* m, rbusObject_t in, rbusObject_t out, rbusMethodAsyncHandle_t ah)
{
  sb_t s; ev_begin(&s,"meth"); sb_f(&s,"%d ",hidx(h)); sb_pct(&s,m); sb_c(&s,' '); ser_object(&s,in); if(logtrace) put_trace(&s,h); emit(&s);
  int mode=ival(in,"mode",0), ms=ival(in,"ms",0), rc=ival(in,"rc",0);
  rbusObject_t o=out; if(mode==2||mode==4) rbusObject_Init(&o,NULL);
  if(mode!=1 && mode!=4)
  {
    for(rbusProperty_t p=in?rbusObject_GetProperties(in):NULL;p;p=rbusProperty_GetNext(p)) rbusObject_SetValue(o,rbusProperty_GetName(p),rbusProperty_GetValue(p));
    rbusValue_t v; rbusValue_Init(&v); rbusValue_SetString(v,m); rbusObject_SetValue(o,"__m",v); rbusValue_Release(v);
    if(logtrace){ char a[1024]="",b[1024]=""; rbusHandle_GetTraceContextAsString(h,a,sizeof a,b,sizeof b);
      rbusValue_Init(&v); rbusValue_SetString(v,a); rbusObject_SetValue(o,"__tp",v); rbusValue_Release(v);
      rbusValue_Init(&v); rbusValue_SetString(v,b); rbusObject_SetValue(o,"__ts",v); rbusValue_Release(v); }
  }
  if(mode==2||mode==4)
  {
    if(mode==4){ rbusObject_Release(o); o=NULL; }
    defer_t* d=calloc(1,sizeof *d); d->ah=ah; d->out=o; d->rc=rc; d->ms=ms; pthread_t t; pthread_create(&t,NULL,deferT,d); pthread_detach(t);
    return RBUS_ERROR_ASYNC_RESPONSE;
  }
  xsleep(ms);
  return rc;
}
/* ------------------------------------------------------------------ consumer callbacks */
static char* evget=NULL; /* a name every event handler reads */
static void evH(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* sub)
{
  sb_t s; ev_begin(&s,"ev"); sb_f(&s,"%d %ld ",hidx(h),(long)(intptr_t)(sub?sub->userData:(void*)-1)); sb_pct(&s,e->name); sb_f(&s," %d ",(int)e->type); ser_object(&s,e->data);
  sb_c(&s,' '); sb_pct(&s,sub?sub->eventName:NULL); if(sub){ sb_f(&s," %u %u ",sub->interval,sub->duration); ser_filter(&s,sub->filter); } emit(&s);
  if(evget){ rbusValue_t v=NULL; int rc=rbus_get(h,evget,&v); ev_begin(&s,"evget"); sb_f(&s,"%d %ld %d ",hidx(h),(long)(intptr_t)(sub?sub->userData:(void*)-1),rc); ser_value(&s,rc?NULL:v); emit(&s); if(v) rbusValue_Release(v); }
}
static void rawH(rbusHandle_t h, rbusEventRawData_t const* e, rbusEventSubscription_t* sub)
{
  sb_t s; ev_begin(&s,"raw"); sb_f(&s,"%d %ld ",hidx(h),(long)(intptr_t)(sub?sub->userData:(void*)-1)); sb_pct(&s,e->name); sb_c(&s,' '); sb_hex(&s,e->rawData,e->rawDataLen); emit(&s);
}
static void subrespH(rbusHandle_t h, rbusEventSubscription_t* sub, rbusError_t err)
{
  sb_t s; ev_begin(&s,"subresp"); sb_f(&s,"%d %ld ",hidx(h),(long)(intptr_t)sub->userData); sb_pct(&s,sub->eventName); sb_f(&s," %d",(int)err); emit(&s);
}
static void invcbH(rbusHandle_t h, char const* m, rbusError_t err, rbusObject_t p)
{
  sb_t s; ev_begin(&s,"invcb"); sb_f(&s,"%d ",hidx(h)); sb_pct(&s,m); sb_f(&s," %d ",(int)err); ser_object(&s,p); emit(&s);
}
static void msgH(rbusHandle_t h, rbusMessage_t* m, void* ud)
{
  sb_t s; ev_begin(&s,"msg"); sb_f(&s,"%d %ld ",hidx(h),(long)(intptr_t)ud); sb_pct(&s,m->topic); sb_c(&s,' '); sb_hex(&s,m->data,m->length); emit(&s);
}
/* ------------------------------------------------------------------ commands */
static rbusElementType_t etype(const char* t){ return *t=='p'?RBUS_ELEMENT_TYPE_PROPERTY:*t=='t'?RBUS_ELEMENT_TYPE_TABLE:*t=='e'?RBUS_ELEMENT_TYPE_EVENT:RBUS_ELEMENT_TYPE_METHOD; }
static rbusEventSubscription_t* mksubs(rbusHandle_t h, int n, char** a, int kind)
{
  rbusEventSubscription_t* s=calloc(n,sizeof *s);
  for(int i=0;i<n;i++,a+=6)
  {
    s[i].eventName=tokdec(a[0]); const char* f=a[1]; s[i].filter=parse_filter(&f); s[i].interval=strtoul(a[2],0,10); s[i].duration=strtoul(a[3],0,10); s[i].publishOnSubscribe=atoi(a[4]);
    s[i].userData=(void*)(intptr_t)atol(a[5]); s[i].handler=(kind==1)?(void*)rawH:(void*)evH; s[i].handle=h;
  }
  return s;
}
static void freesubs(rbusEventSubscription_t* s, int n){ for(int i=0;i<n;i++){ free((char*)s[i].eventName); if(s[i].filter) rbusFilter_Release(s[i].filter);} free(s); }
static int countdir(const char* d){ DIR* p=opendir(d); if(!p) return -1; int n=0; while(readdir(p)) n++; closedir(p); return n-2; }
size_t __attribute__((weak)) __sanitizer_get_current_allocated_bytes(void);

static void run(char* line)
{
  char* a[600]; int n=0; char* sv=NULL;
  for(char* t=strtok_r(line," ",&sv); t && n<599; t=strtok_r(NULL," ",&sv)) a[n++]=t;
  a[n]=NULL; if(n<2){ return; }
  char* id=a[0]; char* c=a[1]; char** v=a+2; int k=n-2; (void)k;
  sb_t r={0}; int rc=0; 
  uint64_t t0=now(); 
#define HD(x) (H[atoi(x)])
  if(!strncmp(c,"c_",2)) rc=core_cmd(c+2,v,k,&r);
  else if(!strncmp(c,"r_",2)){ char const* cc=c+2; rc=rt_cmd(cc,v,k,&r); }
  else if(IS("open")){ int i=atoi(v[0]); char* nm=tokdec(v[1]); rbusHandle_t h=NULL; rc=rbus_open(&h,nm); H[i]=rc==0?h:NULL; free(nm); }
  else if(IS("close")){ int i=atoi(v[0]); rbusHandle_t h=H[i]; rc=rbus_close(h); if(k<2) H[i]=NULL; }
  else if(IS("opendirect")){ char* nm=tokdec(v[2]); rbusHandle_t h=NULL; rc=rbus_openDirect(HD(v[0]),&h,nm); H[atoi(v[1])]=rc==0?h:NULL; free(nm); }
  else if(IS("closedirect")){ int i=atoi(v[0]); rc=rbus_closeDirect(H[i]); H[i]=NULL; }
  else if(IS("timeouts")){ rbusTimeoutValues_t t={strtoul(v[1],0,10),strtoul(v[2],0,10),strtoul(v[3],0,10),strtoul(v[4],0,10),strtoul(v[5],0,10)}; 
    /* setTimeout getTimeout setMulti getMulti subscribe */ rc=rbusHandle_ConfigTimeoutValues(HD(v[0]),t); }
  else if(IS("timeout1")){ uint32_t t=strtoul(v[2],0,10); rbusHandle_t h=HD(v[0]); switch(v[1][0]){ case 's': rc=rbusHandle_ConfigSetTimeout(h,t); break; case 'g': rc=rbusHandle_ConfigGetTimeout(h,t); break;
      case 'S': rc=rbusHandle_ConfigSetMultiTimeout(h,t); break; case 'G': rc=rbusHandle_ConfigGetMultiTimeout(h,t); break; default: rc=rbusHandle_ConfigSubscribeTimeout(h,t); } }
  else if(IS("reg")||IS("unreg"))
  {
    int m=atoi(v[1]); rbusDataElement_t* e=calloc(m?m:1,sizeof *e); int un=IS("unreg");
    for(int i=0;i<m;i++){ char** q=v+2+3*i; e[i].name=tokdec(q[0]); e[i].type=etype(q[1]);
      for(char* f=q[2];*f;f++) switch(*f){ case 'g': e[i].cbTable.getHandler=e[i].type==RBUS_ELEMENT_TYPE_TABLE?tgetH:getH; break; case 'y': e[i].cbTable.methodHandler=syncH; break; case 's': e[i].cbTable.setHandler=setH; break; case 'a': e[i].cbTable.tableAddRowHandler=addH; break;
        case 'r': e[i].cbTable.tableRemoveRowHandler=remH; break; case 'e': e[i].cbTable.eventSubHandler=subH; break; case 'm': e[i].cbTable.methodHandler=methH; break; } }
    rc=un?rbus_unregDataElements(HD(v[0]),m,e):rbus_regDataElements(HD(v[0]),m,e);
    for(int i=0;i<m;i++) free(e[i].name); 
    free(e);
  }
  else if(IS("store")){ char* nm=tokdec(v[0]); const char* p=v[1]; rbusValue_t x=parse_value(&p); pthread_mutex_lock(&stm); ent* e=ent_get(nm,1); rbusValue_t old=e->val; e->val=x; pthread_mutex_unlock(&stm); if(old) rbusValue_Release(old); free(nm); }
  else if(IS("load")){ char* nm=tokdec(v[0]); pthread_mutex_lock(&stm); ent* e=ent_get(nm,0); ser_value(&r,e?e->val:NULL); pthread_mutex_unlock(&stm); free(nm); }
  else if(IS("cfg")){ char* nm=tokdec(v[0]); int x=atoi(v[2]); pthread_mutex_lock(&stm); ent* e=ent_get(nm,1); 
    struct{const char*k;int*p;} m[]={{"set_rc",&e->set_rc},{"set_n",&e->set_n},{"get_rc",&e->get_rc},{"get_n",&e->get_n},{"set_ms",&e->set_ms},{"get_ms",&e->get_ms},{"sub_rc",&e->sub_rc},{"sub_ms",&e->sub_ms},{"autopub",&e->autopub},{"add_rc",&e->add_rc},{"rem_rc",&e->rem_rc},{"quiet",&e->quiet},{"set_skip",&e->set_skip},{"inst",(int*)&e->inst}};
    for(size_t i=0;i<sizeof m/sizeof *m;i++) if(!strcmp(m[i].k,v[1])){ *m[i].p=x; if(!strcmp(v[1],"set_rc")) e->set_n=-1; if(!strcmp(v[1],"get_rc")) e->get_n=-1; }
    pthread_mutex_unlock(&stm); free(nm); }
  else if(IS("nest")){ char* nm=tokdec(v[0]); pthread_mutex_lock(&stm); ent_get(nm,1)->nest=tokdec(v[1]); pthread_mutex_unlock(&stm); free(nm); }
  else if(IS("synctab")){ char* t=tokdec(v[1]); rc=rbus_registerDynamicTableSyncHandler(HD(v[0]),t,syncH); free(t); }
  else if(IS("rows")||IS("serve")){ /* rows table n (inst)* ; serve table n (property)* */ char* t=tokdec(v[0]); int m=atoi(v[1]); pthread_mutex_lock(&stm); dyn* d=dyn_get(t,1); 
    if(IS("rows")){ d->nw=0; for(int i=0;i<m&&i<64;i++) d->want[d->nw++]=strtoul(v[2+i],0,10); } else { d->serves=1; for(int i=0;i<m&&d->np<8;i++) d->prop[d->np++]=tokdec(v[2+i]); } pthread_mutex_unlock(&stm); free(t); }
  else if(IS("evget")) evget=tokdec(v[0]);
  else if(IS("logtrace")) logtrace=atoi(v[0]);
  else if(IS("handlelog")) handlelog=atoi(v[0]);
  else if(IS("get")){ char* nm=tokdec(v[1]); rbusValue_t x=NULL; rc=rbus_get(HD(v[0]),nm,&x); if(rc==0){ ser_value(&r,x);} if(x) rbusValue_Release(x); free(nm); }
  else if(IS("getT")){ char* nm=tokdec(v[2]); rbusHandle_t h=HD(v[0]); switch(v[1][0]){ 
      case 'b': { bool x=0; rc=rbus_getBoolean(h,nm,&x); if(!rc) sb_f(&r,"bool:%d",x); break; } case 'i': { int x=0; rc=rbus_getInt(h,nm,&x); if(!rc) sb_f(&r,"i32:%d",x); break; }
      case 'u': { unsigned x=0; rc=rbus_getUint(h,nm,&x); if(!rc) sb_f(&r,"u32:%u",x); break; } default: { char* x=NULL; rc=rbus_getStr(h,nm,&x); if(!rc){ sb_s(&r,"str:"); sb_pct(&r,x);} free(x); } } free(nm); }
  else if(IS("setT")){ char* nm=tokdec(v[2]); rbusHandle_t h=HD(v[0]); switch(v[1][0]){ case 'b': rc=rbus_setBoolean(h,nm,atoi(v[3])); break; case 'i': rc=rbus_setInt(h,nm,(int)strtol(v[3],0,10)); break; 
      case 'u': rc=rbus_setUInt(h,nm,(unsigned)strtoul(v[3],0,10)); break; default: { char* x=tokdec(v[3]); rc=rbus_setStr(h,nm,x); free(x);} } free(nm); }
  else if(IS("getext")){ int m=atoi(v[1]); char const** nm=calloc(m?m:1,sizeof *nm); for(int i=0;i<m;i++) nm[i]=tokdec(v[2+i]); int np=0; rbusProperty_t ps=NULL; rc=rbus_getExt(HD(v[0]),m,nm,&np,&ps);
    sb_f(&r,"%d",np); for(rbusProperty_t p=ps;p;p=rbusProperty_GetNext(p)){ sb_c(&r,' '); sb_pct(&r,rbusProperty_GetName(p)); sb_c(&r,' '); ser_value(&r,rbusProperty_GetValue(p)); }
    if(ps) rbusProperty_Release(ps); 
    for(int i=0;i<m;i++) free((char*)nm[i]); 
    free(nm); }
  else if(IS("set")){ char* nm=tokdec(v[1]); const char* p=v[2]; rbusValue_t x=parse_value(&p); rbusSetOptions_t o={0}; rbusSetOptions_t* po=NULL; if(k>4){ o.commit=atoi(v[3]); o.sessionId=strtoul(v[4],0,10); po=&o; }
    rc=rbus_set(HD(v[0]),nm,x,po); if(x) rbusValue_Release(x); free(nm); }
  else if(IS("setcommit")){ char* nm=tokdec(v[1]); rbusSetOptions_t o={true,strtoul(v[2],0,10)}; rc=rbus_setCommit(HD(v[0]),nm,&o); free(nm); }
  else if(IS("setmulti")){ int ext=atoi(v[1]); unsigned to=strtoul(v[2],0,10); int m=atoi(v[3]); rbusProperty_t ps=NULL; char** q=v+4;
    for(int i=0;i<m;i++,q+=2){ char* nm=tokdec(q[0]); const char* p=q[1]; rbusValue_t x=parse_value(&p); rbusProperty_t pr; rbusProperty_Init(&pr,nm,x); if(x) rbusValue_Release(x); free(nm); if(!ps) ps=pr; else { rbusProperty_Append(ps,pr); rbusProperty_Release(pr);} }
    rbusSetOptions_t o={0}; rbusSetOptions_t* po=NULL; if(q[0]&&q[1]){ o.commit=atoi(q[0]); o.sessionId=strtoul(q[1],0,10); po=&o; }
    char* failed=NULL; rc=ext?rbus_setMultiExt(HD(v[0]),m,ps,po,to,&failed):rbus_setMulti(HD(v[0]),m,ps,po); sb_pct(&r,failed); free(failed); if(ps) rbusProperty_Release(ps); }
  else if(IS("sub")){ char* nm=tokdec(v[1]); rc=rbusEvent_Subscribe(HD(v[0]),nm,evH,(void*)(intptr_t)atol(v[2]),atoi(v[3])); free(nm); }
  else if(IS("subraw")){ char* nm=tokdec(v[1]); rc=rbusEvent_SubscribeRawData(HD(v[0]),nm,(rbusEventHandler_t)rawH,(void*)(intptr_t)atol(v[2]),atoi(v[3])); free(nm); }
  else if(IS("suba")){ char* nm=tokdec(v[1]); rc=rbusEvent_SubscribeAsync(HD(v[0]),nm,evH,subrespH,(void*)(intptr_t)atol(v[2]),atoi(v[3])); free(nm); }
  else if(IS("unsub")){ char* nm=tokdec(v[1]); rc=rbusEvent_Unsubscribe(HD(v[0]),nm); free(nm); }
  else if(IS("unsubraw")){ char* nm=tokdec(v[1]); rc=rbusEvent_UnsubscribeRawData(HD(v[0]),nm); free(nm); }
  else if(IS("subex")||IS("unsubex")||IS("issub")){ int kind=atoi(v[1]); int to=atoi(v[2]); int m=atoi(v[3]); rbusHandle_t h=HD(v[0]); rbusEventSubscription_t* s=mksubs(h,m,v+4,kind);
    if(IS("issub")) sb_f(&r,"%d",(int)rbusEvent_IsSubscriptionExist(h,kind==9?s->eventName:NULL,kind==9?NULL:s));
    else if(IS("subex")) rc=kind==1?rbusEvent_SubscribeExRawData(h,s,m,to):kind==2?rbusEvent_SubscribeExAsync(h,s,m,subrespH,to):rbusEvent_SubscribeEx(h,s,m,to);
    else rc=kind==1?rbusEvent_UnsubscribeExRawData(h,s,m):rbusEvent_UnsubscribeEx(h,s,m);
    freesubs(s,m); }
  else if(IS("pub")){ char* nm=tokdec(v[1]); const char* p=v[3]; rbusObject_t o=parse_object(&p); rbusEvent_t e={nm,atoi(v[2]),o}; rc=rbusEvent_Publish(HD(v[0]),&e); if(o) rbusObject_Release(o); free(nm); }
  else if(IS("pubn")){ /* pubn h name type from count tag : a burst of numbered events */ char* nm=tokdec(v[1]); int ty=atoi(v[2]),from=atoi(v[3]),cnt=atoi(v[4]),gap=atoi(v[6]); int bad=0;
    for(int i=0;i<cnt;i++){ rbusObject_t o; rbusObject_Init(&o,NULL); rbusValue_t x; rbusValue_Init(&x); rbusValue_SetInt32(x,from+i); rbusObject_SetValue(o,"n",x); rbusValue_Release(x); rbusValue_Init(&x); rbusValue_SetString(x,v[5]); rbusObject_SetValue(o,"tag",x); rbusValue_Release(x);
      rbusEvent_t e={nm,ty,o}; int q=rbusEvent_Publish(HD(v[0]),&e); if(q){ bad++; rc=q; } rbusObject_Release(o); if(gap) usleep(gap); } sb_f(&r,"%d",bad); free(nm); }
  else if(IS("pubraw")){ char* nm=tokdec(v[1]); size_t l; uint8_t* b=hexdec(v[2],&l); rbusEventRawData_t e={nm,b,(unsigned)l}; rc=rbusEvent_PublishRawData(HD(v[0]),&e); free(b); free(nm); }
  else if(IS("addrow")){ char* t=tokdec(v[1]); char* al=tokdec(v[2]); uint32_t inst=0; rc=rbusTable_addRow(HD(v[0]),t,al,&inst); sb_f(&r,"%u",inst); free(t); free(al); }
  else if(IS("remrow")){ char* t=tokdec(v[1]); rc=rbusTable_removeRow(HD(v[0]),t); free(t); }
  else if(IS("regrow")){ char* t=tokdec(v[1]); char* al=tokdec(v[3]); rc=rbusTable_registerRow(HD(v[0]),t,strtoul(v[2],0,10),al); free(t); free(al); }
  else if(IS("unregrow")){ char* t=tokdec(v[1]); rc=rbusTable_unregisterRow(HD(v[0]),t); free(t); }
  else if(IS("rownames")){ char* t=tokdec(v[1]); rbusRowName_t* rn=NULL; rc=rbusTable_getRowNames(HD(v[0]),t,&rn); for(rbusRowName_t* q=rn;q;q=q->next){ sb_pct(&r,q->name); sb_f(&r," %u ",q->instNum); sb_pct(&r,q->alias); sb_c(&r,' '); } rbusTable_freeRowNames(HD(v[0]),rn); free(t); }
  else if(IS("info")){ char* t=tokdec(v[1]); rbusElementInfo_t* ei=NULL; rc=rbusElementInfo_get(HD(v[0]),t,atoi(v[2]),&ei); for(rbusElementInfo_t* q=ei;q;q=q->next){ sb_pct(&r,q->name); sb_c(&r,' '); sb_pct(&r,q->component); sb_f(&r," %d %u ",(int)q->type,q->access);} rbusElementInfo_free(HD(v[0]),ei); free(t); }
  else if(IS("disccomp")){ int m=atoi(v[1]); char const** nm=calloc(m?m:1,sizeof *nm); for(int i=0;i<m;i++) nm[i]=tokdec(v[2+i]); int nc=0; char** cn=NULL; rc=rbus_discoverComponentName(HD(v[0]),m,nm,&nc,&cn);
    if(rc==0){ sb_f(&r,"%d",nc); for(int i=0;i<nc;i++){ sb_c(&r,' '); sb_pct(&r,cn[i]); free(cn[i]); } free(cn); } 
    for(int i=0;i<m;i++) free((char*)nm[i]); 
    free(nm); }
  else if(IS("discelem")){ char* t=tokdec(v[1]); int ne=0; char** en=NULL; rc=rbus_discoverComponentDataElements(HD(v[0]),t,atoi(v[2]),&ne,&en); if(rc==0){ sb_f(&r,"%d",ne); for(int i=0;i<ne;i++){ sb_c(&r,' '); sb_pct(&r,en[i]); free(en[i]); } free(en);} free(t); }
  else if(IS("reglist")){ int n=0; char** en=NULL; rc=rbus_discoverRegisteredComponents(&n,&en); if(rc==1000) rc=0; if(rc==0){ sb_f(&r,"%d",n); for(int i=0;i<n;i++){ sb_c(&r,' '); sb_pct(&r,en[i]); free(en[i]); } free(en);} }
  else if(IS("inv")){ char* t=tokdec(v[1]); const char* p=v[2]; rbusObject_t in=parse_object(&p), out=NULL; rc=rbusMethod_Invoke(HD(v[0]),t,in,&out); ser_object(&r,out); if(in) rbusObject_Release(in); if(out) rbusObject_Release(out); free(t); }
  else if(IS("inva")){ char* t=tokdec(v[1]); const char* p=v[2]; rbusObject_t in=parse_object(&p); rc=rbusMethod_InvokeAsync(HD(v[0]),t,in,invcbH,atoi(v[3])); if(in) rbusObject_Release(in); free(t); }
  else if(IS("sess")){ uint32_t s=0; rbusHandle_t h=HD(v[0]); if(v[1][1]=='r') rc=rbus_createSession(h,&s); else if(v[1][1]=='u') rc=rbus_getCurrentSession(h,&s); else rc=rbus_closeSession(h,strtoul(v[2],0,10)); sb_f(&r,"%u",s); }
  else if(IS("mlisten")){ char* t=tokdec(v[1]); rc=rbusMessage_AddListener(HD(v[0]),t,msgH,(void*)(intptr_t)atol(v[2]),strtoul(v[3],0,10)); free(t); }
  else if(IS("munlisten")){ char* t=tokdec(v[1]); rc=rbusMessage_RemoveListener(HD(v[0]),t,strtoul(v[2],0,10)); free(t); }
  else if(IS("mremall")) rc=rbusMessage_RemoveAllListeners(HD(v[0]));
  else if(IS("mhas")){ char* t=tokdec(v[1]); sb_f(&r,"%d",rbusMessage_HasListener(HD(v[0]),t)); free(t); }
  else if(IS("msend")){ char* t=tokdec(v[1]); size_t l; uint8_t* b=hexdec(v[2],&l); rbusMessage_t m={t,b,(int)l}; rc=rbusMessage_Send(HD(v[0]),&m,atoi(v[3])?RBUS_MESSAGE_CONFIRM_RECEIPT:RBUS_MESSAGE_NONE); free(b); free(t); }
  else if(IS("trace")){ rbusHandle_t h=HD(v[0]); if(v[1][0]=='s'){ char* x=tokdec(v[2]); char* y=tokdec(v[3]); rc=rbusHandle_SetTraceContextFromString(h,x,y); free(x); free(y);} else if(v[1][0]=='c') rc=rbusHandle_ClearTraceContext(h);
    else { int la=atoi(v[2]),lb=atoi(v[3]); char* x=malloc(la?la:1); char* y=malloc(lb?lb:1); if(!la) x[0]=0; if(!lb) y[0]=0; rc=rbusHandle_GetTraceContextAsString(h,x,la,y,lb); if(rc) x[0]=y[0]=0; sb_pct(&r,x); sb_c(&r,' '); sb_pct(&r,y); free(x); free(y); } }
  else if(IS("status")) sb_f(&r,"%d",(int)rbus_checkStatus());
  else if(IS("loglevel")) rc=rbus_setLogLevel(atoi(v[0]));
  else if(IS("sleep")) xsleep(atoi(v[0]));
  else if(IS("stat")){ size_t b=__sanitizer_get_current_allocated_bytes?__sanitizer_get_current_allocated_bytes():mallinfo2().uordblks; sb_f(&r,"%zu %d %d",b,countdir("/proc/self/fd"),countdir("/proc/self/task")); }
  else if(IS("fsize")){ struct rlimit rl; getrlimit(RLIMIT_FSIZE,&rl); rl.rlim_cur=v[0][0]=='-'?RLIM_INFINITY:strtoul(v[0],0,10); rc=setrlimit(RLIMIT_FSIZE,&rl); }
  else if(IS("fds")){ /* hold n more descriptors open */ struct rlimit rl; getrlimit(RLIMIT_NOFILE,&rl); rl.rlim_cur=rl.rlim_max; setrlimit(RLIMIT_NOFILE,&rl); int m=atoi(v[0]); for(int i=0;i<m;i++) if(open("/dev/null",O_RDONLY)<0) rc=1; }
  else if(IS("exit")) exit(0);
  else rc=-999;
  uint64_t t1=now();
  sb_t o={0}; sb_f(&o,"R %s %" PRIu64 " %" PRIu64 " %d ",id,t0,t1,rc); if(r.p) sb_s(&o,r.p); free(r.p); emit(&o);
}
/* ------------------------------------------------------------------ workers */
typedef struct job { char* line; struct job* next; } job;
#define NW 64
static struct { pthread_t t; pthread_mutex_t m; pthread_cond_t c; job *head,*tail; int on; } W[NW];
static void* worker(void* p)
{
  int i=(int)(intptr_t)p;
  for(;;){ pthread_mutex_lock(&W[i].m); while(!W[i].head) pthread_cond_wait(&W[i].c,&W[i].m); job* j=W[i].head; W[i].head=j->next; if(!W[i].head) W[i].tail=NULL; pthread_mutex_unlock(&W[i].m); run(j->line); free(j->line); free(j); }
  return NULL;
}
static void quietlog(rbusLogLevel_t l, const char* f, int n, int t, char* m){ (void)l;(void)f;(void)n;(void)t;(void)m; }
int main(int argc, char** argv)
{
  (void)argc;(void)argv; signal(SIGPIPE,SIG_IGN);
  if(dup2(1,3)<0) return 95;
  dup2(2,1);
  if(!getenv("AGENT_LOG")){ rbus_registerLogHandler(quietlog); rbus_setLogLevel(RBUS_LOG_FATAL); } else { setvbuf(stdout,NULL,_IOLBF,0); rbus_setLogLevel(atoi(getenv("AGENT_LOG"))); }
  char* line=NULL; size_t cap=0; ssize_t l;
  while((l=getline(&line,&cap,stdin))>0)
  {
    if(line[l-1]=='\n') line[--l]=0;
    if(!l) continue;
    char* e; int w=(int)strtol(line,&e,10); if(w<0||w>=NW) w=0; while(*e==' ') e++;
    if(!W[w].on){ W[w].on=1; pthread_mutex_init(&W[w].m,NULL); pthread_cond_init(&W[w].c,NULL); pthread_create(&W[w].t,NULL,worker,(void*)(intptr_t)w); }
    job* j=calloc(1,sizeof *j); j->line=strdup(e); pthread_mutex_lock(&W[w].m); if(W[w].tail) W[w].tail->next=j; else W[w].head=j; W[w].tail=j; pthread_cond_signal(&W[w].c); pthread_mutex_unlock(&W[w].m);
  }
  _exit(0);
}
