// P04: every decoder fed with truncated, mutated and random bytes. usage: seed count first mode
#include "u.hpp"
#include <memory>
#include <ctime>
#include <cmath>
#include <fcntl.h>
#include <sys/stat.h>
#include <rbus.h>
extern "C" {
#include "rbus_buffer.h"
#include "rbuscore_message.h"
#include "rtMessage.h"
#include "rtMessageHeader.h"
#include "rtError.h"
#include "rtBase64.h"
#include "rtLog.h"
void rbusMessage_BeginMetaSectionWrite(rbusMessage); void rbusMessage_EndMetaSectionWrite(rbusMessage); void rbusMessage_BeginMetaSectionRead(rbusMessage); void rbusMessage_EndMetaSectionRead(rbusMessage);
rbusError_t rbusValue_initFromMessage(rbusValue_t*, rbusMessage); void rbusValue_appendToMessage(char const*, rbusValue_t, rbusMessage);
rbusError_t rbusProperty_initFromMessage(rbusProperty_t*, rbusMessage); void rbusPropertyList_initFromMessage(rbusProperty_t*, rbusMessage); void rbusPropertyList_appendToMessage(rbusProperty_t, rbusMessage);
void rbusObject_initFromMessage(rbusObject_t*, rbusMessage); void rbusObject_appendToMessage(rbusObject_t, rbusMessage);
void rbusFilter_AppendToMessage(rbusFilter_t, rbusMessage); void rbusFilter_InitFromMessage(rbusFilter_t*, rbusMessage);
void rbusEventData_updateFromMessage(rbusEvent_t*, rbusFilter_t*, uint32_t*, uint32_t*, int32_t*, rbusMessage); void rbusEventData_appendToMessage(rbusEvent_t*, rbusFilter_t, uint32_t, uint32_t, int32_t, rbusMessage);
struct _rbusSubscriptions; struct elementNode; void rbusSubscriptions_create(struct _rbusSubscriptions**, rbusHandle_t, char const*, struct elementNode*, char const*); void rbusSubscriptions_destroy(struct _rbusSubscriptions*); struct elementNode* getEmptyElementNode(void); void freeElementNode(struct elementNode*);
void __attribute__((weak)) __asan_poison_memory_region(void const volatile*, size_t); void __attribute__((weak)) __asan_unpoison_memory_region(void const volatile*, size_t);
size_t __attribute__((weak)) __sanitizer_get_allocated_size(const volatile void*);
}
typedef std::string S;
static double cpu(){ timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t); return t.tv_sec+t.tv_nsec*1e-9; }
// ------------------------------------------------------------------------ generating
static S rstr(Rng& r){ static const char* w[]={"","a","Device.X.","true","-1","42","1e308","255","xyz\n","\xc3\xa9","0x10","2024-01-02T03:04:05Z","999999999999999999999","nan","12:00"}; if(r.chance(60)) return w[r.below(15)]; S s; int n=r.chance(90)?r.range(0,40):r.range(0,5000); for(int i=0;i<n;i++) s+=(char)r.range(1,255); return s; }
static rbusValue_t gval(Rng& r,int depth); static rbusProperty_t gprops(Rng& r,int depth);
static rbusObject_t gobj(Rng& r,int depth){ rbusObject_t o; S n=rstr(r); if(r.chance(30)) rbusObject_InitMultiInstance(&o,n.c_str()); else rbusObject_Init(&o,n.c_str()); rbusProperty_t p=gprops(r,depth-1); if(p){ rbusObject_SetProperties(o,p); rbusProperty_Release(p);} if(depth>0&&r.chance(40)){ rbusObject_t first=NULL,last=NULL; int k=r.range(1,3); while(k--){ rbusObject_t c=gobj(r,depth-1); if(!first) first=c; else { rbusObject_SetNext(last,c); rbusObject_Release(c);} last=c; } rbusObject_SetChildren(o,first); rbusObject_Release(first);} return o; }
static rbusProperty_t gprops(Rng& r,int depth){ int n=depth<0?0:r.range(0,4); rbusProperty_t first=NULL,last=NULL; while(n--){ rbusProperty_t p; rbusValue_t v=gval(r,depth); rbusProperty_Init(&p,rstr(r).c_str(),v); rbusValue_Release(v); if(!first) first=p; else { rbusProperty_SetNext(last,p); rbusProperty_Release(p);} last=p; } return first; }
static rbusValue_t gval(Rng& r,int depth)
{
  rbusValue_t v; rbusValue_Init(&v); uint64_t u=r.chance(40)?r.below(300):r.u(); double d=(double)(int64_t)u/ (r.chance(50)?1000.0:1.0);
  switch(r.below(depth>0?19:16)){ case 0: rbusValue_SetString(v,rstr(r).c_str()); break; case 1: { S b=rstr(r); rbusValue_SetBytes(v,(uint8_t*)b.data(),b.size()); break; } case 2: rbusValue_SetBoolean(v,u&1); break; case 3: rbusValue_SetInt32(v,(int32_t)u); break; case 4: rbusValue_SetUInt32(v,(uint32_t)u); break; case 5: rbusValue_SetInt64(v,(int64_t)u); break; case 6: rbusValue_SetUInt64(v,u); break; case 7: rbusValue_SetInt16(v,(int16_t)u); break; case 8: rbusValue_SetUInt16(v,(uint16_t)u); break; case 9: rbusValue_SetInt8(v,(int8_t)u); break; case 10: rbusValue_SetUInt8(v,(uint8_t)u); break; case 11: rbusValue_SetSingle(v,(float)d); break; case 12: rbusValue_SetDouble(v,d); break; case 13: { rbusDateTime_t t; memset(&t,0,sizeof t); t.m_time.tm_year=r.range(70,137); t.m_time.tm_mon=r.range(0,11); t.m_time.tm_mday=r.range(1,28); t.m_tz.m_tzhour=r.range(0,12); t.m_tz.m_isWest=r.chance(50); rbusValue_SetTime(v,&t); break; } case 14: rbusValue_SetChar(v,(char)u); break; case 15: rbusValue_SetByte(v,(unsigned char)u); break;
    case 16: case 17: { rbusObject_t o=gobj(r,depth-1); rbusValue_SetObject(v,o); rbusObject_Release(o); break; } default: { rbusProperty_t p=gprops(r,depth-1); rbusValue_SetProperty(v,p); if(p) rbusProperty_Release(p); } }
  return v;
}
static rbusFilter_t gfil(Rng& r,int depth){ rbusFilter_t f; if(depth<=0||r.chance(40)){ rbusValue_t v=gval(r,0); rbusFilter_InitRelation(&f,(rbusFilter_RelationOperator_t)r.below(6),v); rbusValue_Release(v); } else { int op=r.below(3); rbusFilter_t a=gfil(r,depth-1),b=op==2?NULL:gfil(r,depth-1); rbusFilter_InitLogic(&f,(rbusFilter_LogicOperator_t)op,a,b); rbusFilter_Release(a); if(b) rbusFilter_Release(b);} return f; }
// ------------------------------------------------------------------------ mutating
static S mutate(Rng& r,S s)
{
  int n=r.chance(60)?1:r.range(2,6);
  static const unsigned char hot[]={0x00,0x01,0x7f,0x80,0xff,0xc0,0xc4,0xc6,0xd2,0xd3,0xda,0xdb,0xdc,0xdd,0xdf,0xcb,0xca,0xce,0xcf,0x90,0x9f,0xa0,0xbf,0xc9,0xc1,0xd9};
  while(n--){ size_t L=s.size(); switch(r.below(9)){
    case 0: if(L) s[r.below(L)]=(char)r.below(256); break; case 1: if(L) s[r.below(L)]^=(char)(1<<r.below(8)); break; case 2: if(L) s[r.below(L)]=(char)hot[r.below(sizeof hot)]; break;
    case 3: s.insert(r.below(L+1),S(1+r.below(4),(char)(r.chance(50)?r.below(256):hot[r.below(sizeof hot)]))); break; case 4: if(L) s.erase(r.below(L),1+r.below(6)); break;
    case 5: if(L){ size_t a=r.below(L),k=1+r.below(20); s.insert(r.below(L+1),s.substr(a,k)); } break; case 6: if(L) s.resize(r.below(L)); break;
    case 7: if(L>=4){ size_t a=r.below(L-3); static const uint32_t e[]={0,1,0x7fffffff,0x80000000u,0xffffffffu,0xffff,0x10000,1000000,0x7fff0000}; uint32_t x=e[r.below(9)]; for(int i=0;i<4;i++) s[a+i]=(char)(x>>(8*(r.chance(50)?3-i:i))); } break;
    default: if(L>=2){ size_t a=r.below(L-1); s[a]=(char)r.below(256); s[a+1]=(char)r.below(256);} } }
  return s;
}
static S noise(Rng& r){ S s; int n=r.chance(70)?r.range(0,60):r.range(0,3000); for(int i=0;i<n;i++) s+=(char)r.below(256); return s; }
// ------------------------------------------------------------------------ a message whose memory ends where its bytes end
struct Msg { rbusMessage m; uint8_t* p; uint32_t n; size_t cap;
  Msg(S const& b):cap(0){ std::unique_ptr<char[]> c(new char[b.size()]); if(b.size()) memcpy(c.get(),b.data(),b.size()); rbusMessage_FromBytes(&m,(uint8_t*)c.get(),b.size()); rbusMessage_ToBytes(m,&p,&n); if(__asan_poison_memory_region&&__sanitizer_get_allocated_size&&p){ cap=__sanitizer_get_allocated_size(p); if(cap>n) __asan_poison_memory_region(p+n,cap-n); } }
  ~Msg(){ if(cap>n) __asan_unpoison_memory_region(p+n,cap-n); rbusMessage_Release(m); } };
static S bytes(rbusMessage m){ uint8_t* p; uint32_t n; rbusMessage_ToBytes(m,&p,&n); return S((char*)p,n); }
static S encv(rbusValue_t v){ rbusMessage m; rbusMessage_Init(&m); rbusValue_appendToMessage("n",v,m); S s=bytes(m); rbusMessage_Release(m); return s; }
static S enco(rbusObject_t o){ rbusMessage m; rbusMessage_Init(&m); rbusObject_appendToMessage(o,m); S s=bytes(m); rbusMessage_Release(m); return s; }
static S encl(rbusProperty_t p){ rbusMessage m; rbusMessage_Init(&m); rbusPropertyList_appendToMessage(p,m); S s=bytes(m); rbusMessage_Release(m); return s; }
static S encf(rbusFilter_t f){ rbusMessage m; rbusMessage_Init(&m); rbusFilter_AppendToMessage(f,m); S s=bytes(m); rbusMessage_Release(m); return s; }
static void use(rbusValue_t v,bool deep)
{
  char* t=rbusValue_ToString(v,NULL,0); if(t) free(t); t=rbusValue_ToDebugString(v,NULL,0); if(t) free(t);
  int ty=rbusValue_GetType(v); CHECK(ty>=RBUS_BOOLEAN&&ty<=RBUS_NONE,"bad-type","decoded value has type 0x%x",ty); int len=0;
  if(ty==RBUS_STRING){ const char* s=rbusValue_GetString(v,&len); CHECK((!s&&len==0)||(s&&(int)strlen(s)==len),"string-length","string of %zu has length %d",s?strlen(s):0,len); }
  if(ty==RBUS_BYTES){ const uint8_t* b=rbusValue_GetBytes(v,&len); volatile uint8_t x=0; for(int i=0;i<len;i++) x^=b[i]; }
  if(ty==RBUS_OBJECT&&rbusValue_GetObject(v)&&deep){ FILE* f=fopen("/dev/null","w"); rbusObject_fwrite(rbusValue_GetObject(v),2,f); fclose(f); rbusObject_Compare(rbusValue_GetObject(v),rbusValue_GetObject(v),true); }
  rbusValue_t w; rbusValue_Init(&w); rbusValue_Copy(w,v); rbusValue_Compare(v,w); rbusValue_Release(w);
  if(deep){ rbusBuffer_t b; rbusBuffer_Create(&b); rbusValue_Encode(v,b); rbusBuffer_Destroy(b); }
}
enum { D_VALUE, D_PROP, D_LIST, D_OBJ, D_FILTER, D_EVENT, D_ITEMS, D_TEXT, D_META, D_N };
static const char* dname[]={"value","property","list","object","filter","event","items","text","meta"};
static void items(Rng& r,rbusMessage m,int depth){ for(int k=0;k<400;k++){ const char* s=NULL; const uint8_t* b=NULL; uint32_t n=0,u=0; int32_t i=0; int64_t l=0; double d=0; rbusMessage q=NULL; rtError e; switch(r.below(7)){ case 0: e=rbusMessage_GetString(m,&s); CHECK(s!=NULL,"null-string","no string"); { volatile size_t z=strlen(s); (void)z; } break; case 1: e=rbusMessage_GetBytes(m,&b,&n); { volatile uint8_t x=0; for(uint32_t j=0;j<n;j++) x^=b[j]; } break; case 2: e=rbusMessage_GetInt32(m,&i); break; case 3: e=rbusMessage_GetUInt32(m,&u); break; case 4: e=rbusMessage_GetInt64(m,&l); break; case 5: e=rbusMessage_GetDouble(m,&d); break; default: e=rbusMessage_GetMessage(m,&q); if(e==RT_OK&&q){ if(depth<4) items(r,q,depth+1); rbusMessage_Release(q);} } if(e!=RT_OK&&r.chance(10)) break; } }
// returns true when the decoder reported failure (only for those which can)
static bool decode(Rng& r,int d,S const& b,bool full)
{
  Msg q(b); rbusMessage m=q.m; bool failed=false;
  switch(d){
   case D_VALUE: { const char* nm=NULL; failed=rbusMessage_GetString(m,&nm)!=RT_OK; rbusValue_t v=NULL; rbusError_t e=rbusValue_initFromMessage(&v,m); failed|=e!=RBUS_ERROR_SUCCESS; if(v){ use(v,true); if(!failed&&full){ S one=encv(v); Msg q2(one); rbusMessage_GetString(q2.m,&nm); rbusValue_t w; CHECK(rbusValue_initFromMessage(&w,q2.m)==RBUS_ERROR_SUCCESS,"re-decode","value accepted, but its own encoding is not: %s",hex(one.data(),one.size()).c_str()); CHECK(encv(w)==one,"re-encode","value changes when encoded and decoded again: %s",hex(one.data(),one.size()).c_str()); rbusValue_Release(w);} rbusValue_Release(v);} break; }
   case D_PROP: { rbusProperty_t p=NULL; failed=rbusProperty_initFromMessage(&p,m)!=RBUS_ERROR_SUCCESS; if(p){ if(rbusProperty_GetName(p)){ volatile size_t z=strlen(rbusProperty_GetName(p)); (void)z;} if(rbusProperty_GetValue(p)) use(rbusProperty_GetValue(p),false); rbusProperty_Release(p);} break; }
   case D_LIST: { rbusProperty_t p=NULL; rbusPropertyList_initFromMessage(&p,m); if(p){ for(rbusProperty_t x=p;x;x=rbusProperty_GetNext(x)) if(rbusProperty_GetValue(x)) use(rbusProperty_GetValue(x),false); S one=encl(p); (void)one; rbusProperty_Release(p);} break; }
   case D_OBJ: { rbusObject_t o=NULL; rbusObject_initFromMessage(&o,m); if(o){ FILE* f=fopen("/dev/null","w"); rbusObject_fwrite(o,1,f); fclose(f); S one=enco(o); Msg q2(one); rbusObject_t w=NULL; rbusObject_initFromMessage(&w,q2.m); CHECK(w&&enco(w)==one,"re-encode","object changes when encoded and decoded again"); rbusObject_Compare(o,w,true); rbusObject_Release(w); rbusObject_Release(o);} break; }
   case D_FILTER: { rbusFilter_t f=NULL; rbusFilter_InitFromMessage(&f,m); if(f){ FILE* o=fopen("/dev/null","w"); rbusFilter_fwrite(f,o,NULL); fclose(o); rbusValue_t v=gval(r,0); rbusFilter_Apply(f,v); rbusValue_Release(v); S one=encf(f); (void)one; rbusBuffer_t bf; rbusBuffer_Create(&bf); rbusFilter_Encode(f,bf); rbusBuffer_Destroy(bf); rbusFilter_Compare(f,f); rbusFilter_Release(f);} break; }
   case D_EVENT: { rbusEvent_t e; memset(&e,0,sizeof e); rbusFilter_t f=NULL; uint32_t i=0,du=0; int32_t c=0; rbusEventData_updateFromMessage(&e,&f,&i,&du,&c,m); CHECK(e.name!=NULL,"null-name","event without name"); { volatile size_t z=strlen(e.name); (void)z; } if(e.data){ S one=enco(e.data); (void)one; rbusObject_Release(e.data);} if(f) rbusFilter_Release(f); break; }
   case D_ITEMS: items(r,m,0); break;
   case D_TEXT: { char* t=NULL; uint32_t n=0; rbusMessage_ToDebugString(m,&t,&n); CHECK(t&&strlen(t)<=n&&n<=2048,"debug-text","debug text of %zu, reported %u",strlen(t),n); free(t); break; }
   case D_META: { rbusMessage_BeginMetaSectionRead(m); items(r,m,0); rbusMessage_EndMetaSectionRead(m); items(r,m,0); break; }
  }
  return failed;
}
static S gen(Rng& r,int d)
{
  rbusMessage m; rbusMessage_Init(&m);
  switch(d){ case D_LIST: { rbusProperty_t p=gprops(r,2); rbusPropertyList_appendToMessage(p,m); if(p) rbusProperty_Release(p); break; } case D_OBJ: { rbusObject_t o=gobj(r,2); rbusObject_appendToMessage(o,m); rbusObject_Release(o); break; } case D_FILTER: { rbusFilter_t f=gfil(r,3); rbusFilter_AppendToMessage(f,m); rbusFilter_Release(f); break; }
   case D_EVENT: { rbusEvent_t e; memset(&e,0,sizeof e); S n=rstr(r); e.name=n.c_str(); e.type=(rbusEventType_t)r.below(8); e.data=r.chance(80)?gobj(r,2):NULL; rbusFilter_t f=r.chance(50)?gfil(r,2):NULL; rbusEventData_appendToMessage(&e,f,r.below(100),r.below(100),r.range(-5,500),m); if(e.data) rbusObject_Release(e.data); if(f) rbusFilter_Release(f); break; }
   case D_META: { rbusValue_t v=gval(r,1); rbusValue_appendToMessage("body",v,m); rbusValue_Release(v); rbusMessage_BeginMetaSectionWrite(m); rbusMessage_SetString(m,"METHOD_X"); rbusMessage_SetString(m,"t1"); rbusMessage_SetString(m,"t2"); rbusMessage_EndMetaSectionWrite(m); break; }
   default: { rbusValue_t v=gval(r,3); rbusValue_appendToMessage(rstr(r).c_str(),v,m); rbusValue_Release(v); } }
  if(d==D_ITEMS||d==D_TEXT){ int k=r.range(0,10); while(k--) switch(r.below(4)){ case 0: rbusMessage_SetInt32(m,(int)r.u()); break; case 1: rbusMessage_SetString(m,rstr(r).c_str()); break; case 2: { S b=noise(r); rbusMessage_SetBytes(m,(uint8_t*)b.data(),b.size()); break; } default: rbusMessage_SetDouble(m,(double)r.u()); } }
  S s=bytes(m); rbusMessage_Release(m); return s;
}
static void run(Rng& r,int d,S const& b,const char* how,bool full=true)
{
  g_case=strf("%s %s %zu bytes %s",dname[d],how,b.size(),hex(b.data(),b.size()).c_str()); double t=cpu(); Rng r2=r; size_t h0=heap_bytes(); decode(r,d,b,full); size_t h1=heap_bytes(); r=r2; decode(r,d,b,full); size_t h2=heap_bytes();
  CHECK(cpu()-t<20,"slow","decoding %zu bytes took %.1f s of CPU",b.size(),cpu()-t); if(__sanitizer_get_current_allocated_bytes) CHECK(h2==h1||h1==h0,"leak","decoding leaves %zd bytes behind each time",(ssize_t)(h2-h1)); stat("inputs_decoded",2); distinct(strf("%s/%s/%zu",dname[d],how,std::min<size_t>(b.size(),40)));
}
static void deep(Rng& r)
{ // content nested as deep as the bytes allow
  int n=r.pick(std::vector<int>{3,400,499,500,501,502,700,20000}); int kind=r.below(4); rbusMessage m; rbusMessage_Init(&m);
  for(int i=0;i<n;i++) switch(kind){ case 0: rbusMessage_SetString(m,"v"); rbusMessage_SetInt32(m,RBUS_OBJECT); rbusMessage_SetString(m,"o"); rbusMessage_SetInt32(m,0); rbusMessage_SetInt32(m,1); break; case 1: rbusMessage_SetString(m,"o"); rbusMessage_SetInt32(m,0); rbusMessage_SetInt32(m,0); rbusMessage_SetInt32(m,1); break; case 2: rbusMessage_SetString(m,"v"); rbusMessage_SetInt32(m,RBUS_PROPERTY); rbusMessage_SetInt32(m,1); break; default: rbusMessage_SetInt32(m,1); rbusMessage_SetInt32(m,r.below(3)); }
  S b=bytes(m); rbusMessage_Release(m); int d=kind==0||kind==2?D_VALUE:kind==1?D_OBJ:D_FILTER; run(r,d,b,"deep"); run(r,D_ITEMS,b,"deep"); run(r,D_TEXT,b,"deep"); stat("deep_inputs");
}
static void caseMsg(Rng& r)
{
  for(int d=0;d<D_N;d++)
  {
    S b=gen(r,d); sample(strf("%s: %s",dname[d],hex(b.data(),b.size()).c_str())); run(r,d,b,"valid");
    if(d==D_VALUE||d==D_PROP){ CHECK(!decode(r,d,b,true),"valid-refused","a valid %s is refused",dname[d]); std::set<size_t> cuts; if(b.size()<=60) for(size_t k=0;k<b.size();k++) cuts.insert(k); else for(int k=0;k<40;k++) cuts.insert(r.below(b.size()));
      for(size_t k: cuts){ S c=b.substr(0,k); g_case=strf("%s cut at %zu of %zu: %s",dname[d],k,b.size(),hex(b.data(),b.size()).c_str()); CHECK(decode(r,d,c,true),"truncated-accepted","a %s cut after %zu of its %zu bytes is decoded without failure",dname[d],k,b.size()); stat("truncations"); } }
    for(int k=0;k<12;k++) run(r,d,mutate(r,b),"mutated"); for(int k=0;k<3;k++) run(r,d,b.empty()?b:b.substr(0,r.below(b.size())),"cut"); run(r,d,noise(r),"noise"); run(r,d,gen(r,r.below(D_N)),"other");
  }
  if(r.chance(15)) deep(r);
}
// ------------------------------------------------------------------------ TLV
struct Buf { rbusBuffer_t b; Buf(S const& s){ rbusBuffer_Create(&b); b->data=(uint8_t*)malloc(s.size()?s.size():1); /* the built-in block stays unused */ if(s.size()) memcpy(b->data,s.data(),s.size()); b->lenAlloc=std::max<size_t>(s.size(),4096); b->posWrite=s.size(); b->posRead=0; } ~Buf(){ rbusBuffer_Destroy(b); } };
static int tlv(Rng& r,int d,S const& s){ Buf b(s); int rc; if(d==0){ rbusValue_t v=NULL; rc=rbusValue_Decode(&v,b.b); if(rc>=0){ use(v,true); rbusValue_Release(v);} } else { rbusFilter_t f=NULL; rc=rbusFilter_Decode(&f,b.b); if(rc>=0&&f){ FILE* o=fopen("/dev/null","w"); rbusFilter_fwrite(f,o,NULL); fclose(o); rbusValue_t v=gval(r,0); rbusFilter_Apply(f,v); rbusValue_Release(v); rbusMessage m; rbusMessage_Init(&m); rbusFilter_AppendToMessage(f,m); rbusMessage_Release(m); rbusFilter_Release(f);} } CHECK(b.b->posRead<=b.b->posWrite,"read-past","the reader stands at %d of %d",b.b->posRead,b.b->posWrite); return rc; }
static void caseTlv(Rng& r)
{
  for(int d=0;d<2;d++) for(int rep=0;rep<6;rep++)
  {
    rbusBuffer_t w; rbusBuffer_Create(&w); if(d==0){ rbusValue_t v=gval(r,0); rbusValue_Encode(v,w); rbusValue_Release(v);} else { rbusFilter_t f=gfil(r,4); rbusFilter_Encode(f,w); rbusFilter_Release(f);} S s((char*)w->data,w->posWrite); rbusBuffer_Destroy(w);
    g_case=strf("tlv %d %s",d,hex(s.data(),s.size()).c_str()); CHECK(tlv(r,d,s)>=0,"tlv-valid","valid encoding refused"); sample(g_case);
    for(size_t k=0;k<s.size();k+=s.size()>80?1+r.below(s.size()/40):1){ g_case=strf("tlv %d cut at %zu: %s",d,k,hex(s.data(),s.size()).c_str()); CHECK(tlv(r,d,s.substr(0,k))<0,"tlv-truncated","%s cut after %zu of %zu bytes decoded without failure",d?"filter":"value",k,s.size()); stat("truncations"); }
    for(int k=0;k<30;k++){ S x=r.chance(90)?mutate(r,s):noise(r); g_case=strf("tlv %d %s",d,hex(x.data(),x.size()).c_str()); Rng r2=r; size_t h0=heap_bytes(); tlv(r,d,x); r=r2; size_t h1=heap_bytes(); tlv(r,d,x); size_t h2=heap_bytes(); if(__sanitizer_get_current_allocated_bytes) CHECK(h1==h0||h2==h1,"leak","TLV decoding leaves %zd bytes behind",(ssize_t)(h2-h1)); stat("inputs_decoded",2); distinct(strf("tlv/%d/%zu/%d",d,std::min<size_t>(x.size(),60),(int)(unsigned char)(x.empty()?0:x[1%x.size()]))); }
  }
  for(int n: {100,1000,30000}) if(r.chance(30)){ S s; for(int i=0;i<n;i++){ auto u=[&](uint32_t x){ uint16_t t=RBUS_UINT32,l=4; (void)l; rbusBuffer_t w; rbusBuffer_Create(&w); rbusBuffer_WriteUInt32TLV(w,x); s.append((char*)w->data,w->posWrite); rbusBuffer_Destroy(w); (void)t; }; u(1); u(r.below(3)); } g_case=strf("filter nested %d deep",n); tlv(r,1,s); stat("deep_inputs"); }
  // text forms
  for(int k=0;k<40;k++){ static const int ty[]={RBUS_BOOLEAN,RBUS_CHAR,RBUS_BYTE,RBUS_INT8,RBUS_UINT8,RBUS_INT16,RBUS_UINT16,RBUS_INT32,RBUS_UINT32,RBUS_INT64,RBUS_UINT64,RBUS_SINGLE,RBUS_DOUBLE,RBUS_DATETIME,RBUS_STRING,RBUS_BYTES,RBUS_NONE,RBUS_OBJECT,RBUS_PROPERTY,12345}; int t=ty[r.below(20)]; S x=rstr(r); if(t==RBUS_DATETIME&&r.chance(70)) x=mutate(r,"2024-01-02T03:04:05+02:00"); if(t==RBUS_BYTES&&r.chance(70)) x=mutate(r,"0aff10"); x=x.c_str(); std::unique_ptr<char[]> c(new char[x.size()+1]); memcpy(c.get(),x.c_str(),x.size()+1); g_case=strf("text type %x %s",t,hex(x.data(),x.size()).c_str()); rbusValue_t v; rbusValue_Init(&v); if(t!=RBUS_OBJECT&&t!=RBUS_PROPERTY){ bool ok=rbusValue_SetFromString(v,(rbusValueType_t)t,c.get()); if(ok) use(v,true); stat(ok?"texts_accepted":"texts_refused"); } rbusValue_Release(v); }
}
// ------------------------------------------------------------------------ JSON, header, base64
static void jread(Rng& r,rtMessage m,int depth)
{
  static const char* f[]={"add","topic","route_id","a","b","list","obj",""}; for(int k=0;k<8;k++){ const char* n=f[k]; const char* s=NULL; int32_t i=0; double d=0; bool b; void* p=NULL; uint32_t l=0; rtMessage q=NULL; char buf[17];
    if(rtMessage_GetString(m,n,&s)==RT_OK){ volatile size_t z=strlen(s); (void)z; } rtMessage_GetInt32(m,n,&i); rtMessage_GetDouble(m,n,&d); rtMessage_GetBool(m,n,&b); if(rtMessage_GetBinaryData(m,n,&p,&l)==RT_OK){ volatile uint8_t x=0; for(uint32_t j=0;j<l;j++) x^=((uint8_t*)p)[j]; free(p);} memset(buf,7,sizeof buf); rtMessage_GetStringValue(m,n,buf,16); CHECK(buf[16]==7,"string-overrun","GetStringValue writes past its buffer");
    if(rtMessage_GetMessage(m,n,&q)==RT_OK&&q){ if(depth<3) jread(r,q,depth+1); rtMessage_Release(q);} i=0; if(rtMessage_GetArrayLength(m,n,&i)==RT_OK) for(int j=-1;j<=std::min(i,20);j++){ rtMessage_GetStringItem(m,n,j,&s); q=NULL; if(rtMessage_GetMessageItem(m,n,j,&q)==RT_OK&&q){ if(depth<3) jread(r,q,depth+1); rtMessage_Release(q);} } }
  uint8_t* b=NULL; uint32_t n=0; if(rtMessage_ToByteArray(m,&b,&n)==RT_OK) rtMessage_FreeByteArray(b); char t[4096]; rtMessage_GetSendTopic(m,t); char* str=NULL; if(rtMessage_ToString(m,&str,&n)==RT_OK) free(str); rtMessage c=NULL; if(rtMessage_Clone(m,&c)==RT_OK&&c) rtMessage_Release(c);
}
static bool json(Rng& r,S const& s){ std::unique_ptr<uint8_t[]> c(new uint8_t[s.size()]); if(s.size()) memcpy(c.get(),s.data(),s.size()); rtMessage m=NULL; rtError e=rtMessage_FromBytes(&m,c.get(),s.size()); c.reset(); if(e==RT_OK){ CHECK(m!=NULL,"json-null","no message"); jread(r,m,0); rtMessage_Release(m);} else CHECK(m==NULL,"json-junk","a message is left behind after a failure"); return e==RT_OK; }
static void caseWire(Rng& r)
{
  S s; if(r.chance(50)) s=strf("{\"add\":%d,\"topic\":\"a.%d.b\",\"route_id\":%d}",r.range(0,1),r.range(0,99),r.range(-2,300)); else { rtMessage m; rtMessage_Create(&m); rtMessage_SetString(m,"topic",r.chance(50)?"x.y":"\xc3\xa9\\\""); rtMessage_SetInt32(m,"add",(int)r.u()); rtMessage_SetDouble(m,"a",(double)r.u()); rtMessage_SetBool(m,"b",r.chance(50)); for(int k=r.range(0,4);k>0;k--) rtMessage_AddString(m,"list","item"); if(r.chance(60)){ S x=noise(r); if(x.size()>1000) x.resize(1000); if(x.size()) rtMessage_AddBinaryData(m,"obj",(void*)x.data(),x.size()); } uint8_t* p; uint32_t n; rtMessage_ToByteArray(m,&p,&n); s=S((char*)p,n); while(s.size()&&s.back()==0) s.pop_back(); rtMessage_FreeByteArray(p); rtMessage_Release(m);} sample(s);
  g_case="json "+s; CHECK(json(r,s),"json-valid","valid JSON refused"); for(size_t k=0;k<s.size();k++){ g_case=strf("json cut at %zu: %s",k,s.c_str()); CHECK(!json(r,s.substr(0,k)),"json-truncated","a JSON message cut after %zu of %zu bytes is accepted",k,s.size()); stat("truncations"); }
  for(int k=0;k<60;k++){ S x=r.chance(85)?mutate(r,s):noise(r); g_case="json "+hex(x.data(),x.size()); Rng r2=r; size_t h0=heap_bytes(); json(r,x); r=r2; size_t h1=heap_bytes(); json(r,x); size_t h2=heap_bytes(); if(__sanitizer_get_current_allocated_bytes) CHECK(h1==h0||h2==h1,"leak","JSON decoding leaves %zd bytes behind",(ssize_t)(h2-h1)); stat("inputs_decoded",2); distinct(strf("json/%zu",std::min<size_t>(x.size(),200))); }
  if(r.chance(20)) for(const char* o: {"[","{\"a\":","[["}){ S x; for(int k=0;k<r.range(900,20000);k++) x+=o; double t=cpu(); g_case="deep json"; json(r,x); CHECK(cpu()-t<20,"slow","deep JSON took %.1f s",cpu()-t); stat("deep_inputs"); }
  // frame headers: bytes up to the announced length (at least the fixed part) and not one more
  for(int k=0;k<60;k++)
  {
    rtMessageHeader h; rtMessageHeader_Init(&h); h.sequence_number=(uint32_t)r.u(); h.flags=r.below(64); h.payload_length=(uint32_t)r.u(); h.topic_length=r.range(0,RTMSG_HEADER_MAX_TOPIC_LENGTH-1); h.reply_topic_length=r.range(0,RTMSG_HEADER_MAX_TOPIC_LENGTH-1); memset(h.topic,'t',h.topic_length); memset(h.reply_topic,'r',h.reply_topic_length); h.topic[h.topic_length]=h.reply_topic[h.reply_topic_length]=0;
    std::unique_ptr<uint8_t[]> e(new uint8_t[RTMESSAGEHEADER_MAX_LENGTH]); rtMessageHeader_Encode(&h,e.get()); S x((char*)e.get(),h.header_length); bool touched=r.chance(90); if(touched){ int n=r.range(1,3); while(n--) switch(r.below(4)){ case 0: x[r.below(26)]=(char)r.below(256); break; case 1: { static const uint32_t ev[]={0,1,99,100,255,256,0x7fffffff,0x80000000u,0xffffffffu,0xffff0000u,0xfffffff0u}; uint32_t v=r.chance(50)?ev[r.below(11)]:r.below(600); size_t at=r.chance(50)?22:26+h.topic_length; for(int i=0;i<4;i++) x[at+i]=(char)(v>>(24-8*i)); break; } case 2: { unsigned v=r.chance(50)?r.below(70):r.below(65536); x[4]=(char)(v>>8); x[5]=(char)v; break; } default: x[r.below(x.size())]=(char)r.below(256); } }
    unsigned hl=((unsigned char)x[4]<<8)|(unsigned char)x[5]; size_t have=std::max<size_t>(hl,RTMESSAGEHEADER_PREAMBLE_LENGTH); if(x.size()<have) { while(x.size()<have) x+=(char)r.below(256); } else x.resize(have);
    std::unique_ptr<uint8_t[]> c(new uint8_t[x.size()]); memcpy(c.get(),x.data(),x.size()); g_case=strf("header %zu bytes, announced %u: %s",x.size(),hl,hex(x.data(),x.size()).c_str()); std::unique_ptr<rtMessageHeader> o(new rtMessageHeader); rtMessageHeader_Init(o.get()); rtError er=rtMessageHeader_Decode(o.get(),c.get()); if(er==RT_OK){ CHECK(o->topic_length<sizeof o->topic&&o->topic[o->topic_length]==0&&o->reply_topic_length<sizeof o->reply_topic&&o->reply_topic[o->reply_topic_length]==0&&o->topic_length+o->reply_topic_length+RTMESSAGEHEADER_SIZE_WITHOUT_STRINGS<=hl,"header-lengths","accepted header with names of %u and %u in %u bytes",o->topic_length,o->reply_topic_length,hl); } if(!touched) CHECK(er==RT_OK,"header-valid","valid header refused"); stat("headers"); distinct(strf("hdr/%d/%u",er==RT_OK,std::min(hl,300u)));
  }
  for(int k=0;k<30;k++){ S b=noise(r); if(b.size()>1000) b.resize(1000); unsigned char* e=NULL; unsigned en=0; S x; if(b.size()&&r.chance(70)&&rtBase64_encode(b.data(),b.size(),&e,&en)==RT_OK){ x=(char*)e; free(e); x=mutate(r,x);} else x=b; std::unique_ptr<uint8_t[]> c(new uint8_t[x.size()]); if(x.size()) memcpy(c.get(),x.data(),x.size()); void* d=NULL; unsigned dn=0; g_case="base64 "+hex(x.data(),x.size()); if(rtBase64_decode(c.get(),x.size(),&d,&dn)==RT_OK){ CHECK(dn<=x.size()*3/4,"base64-length","%u bytes out of %zu",dn,x.size()); volatile uint8_t z=0; for(unsigned j=0;j<dn;j++) z^=((uint8_t*)d)[j]; free(d);} stat("base64"); }
}
// ------------------------------------------------------------------------ stored subscriptions
static void caseCache(Rng& r)
{
  rbusBuffer_t w; rbusBuffer_Create(&w); int n=r.range(0,4); int pid=r.chance(60)?getpid():999999; for(int k=0;k<n;k++){ S l=strf("rbus.c%d.INBOX.%d",k,pid), e=strf("Dev.E%d!",k); rbusBuffer_WriteStringTLV(w,l.c_str(),l.size()+1); rbusBuffer_WriteStringTLV(w,e.c_str(),e.size()+1); rbusBuffer_WriteInt32TLV(w,1); for(int q=0;q<5;q++) rbusBuffer_WriteInt32TLV(w,r.below(100)); bool f=r.chance(60); rbusBuffer_WriteInt32TLV(w,f); if(f){ rbusFilter_t x=gfil(r,3); rbusFilter_Encode(x,w); rbusFilter_Release(x);} }
  S s((char*)w->data,w->posWrite); rbusBuffer_Destroy(w); mkdir("/tmp/.rbus",0777); S mark=strf("/tmp/.rbus/%d_1",getpid()); { FILE* f=fopen(mark.c_str(),"w"); if(f) fclose(f); }
  mkdir("dec",0777); for(int k=0;k<25;k++){ S x=k==0?s:r.chance(20)?s.substr(0,r.below(s.size()+1)):r.chance(90)?mutate(r,s):noise(r); S path="dec/rbus_subs_comp"; g_case="cache "+hex(x.data(),x.size()); size_t h0=0,h1=0,h2=0; for(int t=0;t<3;t++){ FILE* f=fopen(path.c_str(),"w"); if(!f){ fprintf(stderr,"cannot write %s\n",path.c_str()); exit(2);} fwrite(x.data(),1,x.size(),f); fclose(f); struct _rbusSubscriptions* q=NULL; struct elementNode* root=getEmptyElementNode(); rbusSubscriptions_create(&q,NULL,"comp",root,"dec"); CHECK(q!=NULL,"cache-null","no subscription registry"); rbusSubscriptions_destroy(q); freeElementNode(root); (t==0?h0:t==1?h1:h2)=heap_bytes(); } if(__sanitizer_get_current_allocated_bytes) CHECK(h2<=h1||h1<=h0,"leak","loading a stored subscription file leaves %zd bytes behind",(ssize_t)(h2-h1)); stat("files_loaded",3); distinct(strf("cache/%d/%zu",n,std::min<size_t>(x.size(),300))); }
  unlink(mark.c_str()); sample(strf("stored subscriptions: %d entries, %zu bytes",n,s.size()));
}
int main(int argc,char** argv)
{
  if(argc<5) return 2; S mode=argv[4]; rtLog_SetLevel(RT_LOG_FATAL); rbus_setLogLevel(RBUS_LOG_FATAL);
  return run_cases(argc,argv,[&](Rng& r,long){ if(mode=="msg") caseMsg(r); else if(mode=="tlv") caseTlv(r); else if(mode=="wire") caseWire(r); else caseCache(r); });
}
