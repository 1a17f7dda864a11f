// P01/P02/P05: values, properties, objects and filters against an independent model.
// argv: seed count first mode(value|object|filter)
#include "u.hpp"
#include <memory>
#include <cmath>
#include <cfloat>
#include <climits>
#include <ctime>
#include <rbus.h>
extern "C" {
#include "rbus_buffer.h"
#include "rbuscore_message.h"
rbusError_t rbusValue_initFromMessage(rbusValue_t*, rbusMessage);
void rbusValue_appendToMessage(char const*, rbusValue_t, rbusMessage);
rbusError_t rbusProperty_initFromMessage(rbusProperty_t*, rbusMessage);
void rbusPropertyList_initFromMessage(rbusProperty_t*, rbusMessage);
void rbusPropertyList_appendToMessage(rbusProperty_t, rbusMessage);
void rbusObject_initFromMessage(rbusObject_t*, rbusMessage);
void rbusObject_appendToMessage(rbusObject_t, rbusMessage);
void rbusFilter_AppendToMessage(rbusFilter_t, rbusMessage);
void rbusFilter_InitFromMessage(rbusFilter_t*, rbusMessage);
}
typedef __int128 i128;
struct MO; typedef std::shared_ptr<MO> MOp;
struct MV { int type=RBUS_NONE; int64_t i=0; uint64_t u=0; double d=0; bool null=false; std::string s; rbusDateTime_t t; std::vector<std::pair<std::string,MV>> props; MOp obj; MV(){ memset(&t,0,sizeof t);} };
struct MO { std::string name; int type=RBUS_OBJECT_SINGLE_INSTANCE; std::vector<std::pair<std::string,MV>> props; std::vector<MOp> kids; };
static const std::vector<int> SCALARS={RBUS_BOOLEAN,RBUS_CHAR,RBUS_BYTE,RBUS_INT8,RBUS_UINT8,RBUS_INT16,RBUS_UINT16,RBUS_INT32,RBUS_UINT32,RBUS_INT64,RBUS_UINT64,RBUS_SINGLE,RBUS_DOUBLE,RBUS_DATETIME,RBUS_STRING,RBUS_BYTES};
static bool isInt(int t){ return t>=RBUS_BOOLEAN && t<=RBUS_UINT64; }
static bool isNum(int t){ return t>=RBUS_BOOLEAN && t<=RBUS_DOUBLE; }
static bool isUns(int t){ return t==RBUS_BOOLEAN||t==RBUS_BYTE||t==RBUS_UINT8||t==RBUS_UINT16||t==RBUS_UINT32||t==RBUS_UINT64; }
static void range(int t, i128& lo, i128& hi)
{
  switch(t){ case RBUS_BOOLEAN: lo=0;hi=1;break; case RBUS_CHAR: lo=CHAR_MIN;hi=CHAR_MAX;break; case RBUS_BYTE: case RBUS_UINT8: lo=0;hi=255;break; case RBUS_INT8: lo=-128;hi=127;break;
    case RBUS_INT16: lo=-32768;hi=32767;break; case RBUS_UINT16: lo=0;hi=65535;break; case RBUS_INT32: lo=INT32_MIN;hi=INT32_MAX;break; case RBUS_UINT32: lo=0;hi=UINT32_MAX;break;
    case RBUS_INT64: lo=INT64_MIN;hi=INT64_MAX;break; default: lo=0;hi=UINT64_MAX; }
}
static std::string rstr(Rng& r, int maxlen)
{
  static const std::vector<int> L={0,1,2,7,15,62,63,64,65,127,128,255,256,1000};
  static const std::vector<int> B={32767,32768,65534,65535,65536,65537,70000};
  int n=r.chance(60)?r.range(0,12):r.pick(L); if(maxlen>65536&&r.chance(50)) n=r.pick(B); if(n>maxlen) n=maxlen;
  std::string s; bool ascii=r.chance(50); for(int i=0;i<n;i++) s+= ascii?(char)r.range(32,126):(char)r.range(1,255);
  return s;
}
static rbusDateTime_t rtime(Rng& r)
{
  rbusDateTime_t t; memset(&t,0,sizeof t); struct tm tm={}; time_t s=(time_t)(r.u()%4102444800ull)-(r.chance(20)?946684800ll:0); gmtime_r(&s,&tm);
  if(tm.tm_year==0) tm.tm_year=1;
  t.m_time.tm_sec=tm.tm_sec; t.m_time.tm_min=tm.tm_min; t.m_time.tm_hour=tm.tm_hour; t.m_time.tm_mday=tm.tm_mday; t.m_time.tm_mon=tm.tm_mon; t.m_time.tm_year=tm.tm_year; t.m_time.tm_wday=tm.tm_wday; t.m_time.tm_yday=tm.tm_yday;
  if(r.chance(60)){ t.m_tz.m_tzhour=r.range(0,14); t.m_tz.m_tzmin=r.chance(50)?0:r.range(0,59); t.m_tz.m_isWest=r.chance(50) && (t.m_tz.m_tzhour||t.m_tz.m_tzmin); }
  return t;
}
static i128 days(int64_t y,int m,int d){ y-=m<=2; i128 era=(y>=0?y:y-399)/400; unsigned yoe=(unsigned)(y-era*400); unsigned doy=(153*(m+(m>2?-3:9))+2)/5+d-1; unsigned doe=yoe*365+yoe/4-yoe/100+doy; return era*146097+(i128)doe-719468; }
static i128 instant(rbusDateTime_t const& t){ i128 s=days(t.m_time.tm_year+1900,t.m_time.tm_mon+1,t.m_time.tm_mday)*86400+t.m_time.tm_hour*3600+t.m_time.tm_min*60+t.m_time.tm_sec; i128 o=t.m_tz.m_tzhour*3600+t.m_tz.m_tzmin*60; return s-(t.m_tz.m_isWest?-o:o); }
static double rdouble(Rng& r){ switch(r.below(8)){ case 0: return 0.0; case 1: return -0.0; case 2: return r.chance(50)?DBL_MAX:-DBL_MAX; case 3: return r.chance(50)?DBL_MIN:4.9e-324; case 4: return r.chance(50)?INFINITY:-INFINITY; case 5: return (double)r.range(-1000,1000)/4; case 6: return (double)(int64_t)r.u(); default: { uint64_t b=r.u(); double d; memcpy(&d,&b,8); return std::isnan(d)?1.5:d; } } }
static MOp rmo(Rng& r, int depth);
static MV rmv(Rng& r, int depth=0, int type=-1)
{
  MV m; m.type= type>=0?type: (depth>0&&r.chance(20)? (r.chance(50)?RBUS_OBJECT:RBUS_PROPERTY) : r.pick(SCALARS));
  if(isInt(m.type))
  {
    i128 lo,hi; range(m.type,lo,hi); i128 v;
    switch(r.below(5)){ case 0: v=lo; break; case 1: v=hi; break; case 2: v=lo+(i128)r.below(2); break; case 3: v=r.range(-3,3); break; default: { i128 span=hi-lo+1; v=lo+(i128)(r.u())%span; } }
    if(r.chance(10)) v=(i128)(1ull<<r.below(64))+(i128)r.range(-1,1);
    if(v<lo) v=lo; if(v>hi) v=hi;
    if(m.type==RBUS_UINT64) m.u=(uint64_t)v; m.i=(int64_t)v;
  }
  else switch(m.type)
  {
    case RBUS_SINGLE: { double d=rdouble(r); float f=(float)d; if(std::isinf(f)&&!std::isinf(d)) f=FLT_MAX; m.d=f; if(r.chance(3)) m.d=NAN; break; }
    case RBUS_DOUBLE: m.d=rdouble(r); if(r.chance(3)) m.d=NAN; break;
    case RBUS_DATETIME: m.t=rtime(r); break;
    case RBUS_STRING: m.null=r.chance(5); if(!m.null) m.s=rstr(r,r.chance(3)?70000:2000); break;
    case RBUS_BYTES: m.null=r.chance(3); if(!m.null){ m.s=rstr(r,r.chance(3)?70000:2000); if(r.chance(60)) for(char& c: m.s) if(r.chance(30)) c=0; } break;
    case RBUS_PROPERTY: { int n=r.range(0,4); for(int i=0;i<n;i++) m.props.push_back({strf("p%d",r.range(0,9)),rmv(r,depth-1)}); break; }
    case RBUS_OBJECT: if(r.chance(10)) m.null=true; else m.obj=rmo(r,depth-1); break;
  }
  return m;
}
static MOp rmo(Rng& r, int depth)
{
  MOp o=std::make_shared<MO>(); o->name=r.chance(10)?"":strf("obj%d",r.range(0,9)); o->type=r.chance(30)?RBUS_OBJECT_MULTI_INSTANCE:RBUS_OBJECT_SINGLE_INSTANCE;
  int n=r.range(0,5); std::set<std::string> used; for(int i=0;i<n;i++){ std::string k=r.chance(5)?std::string():strf("Prop%d",r.range(0,30)); if(used.insert(k).second) o->props.push_back({k,rmv(r,depth)}); }
  if(depth>0){ int k=r.range(0,3); for(int i=0;i<k;i++){ MOp c=rmo(r,depth-1); c->name=strf("kid%d",i); o->kids.push_back(c);} }
  return o;
}
static std::string show(MV const& m){ std::string t=rbusValueType_ToDebugString((rbusValueType_t)m.type); if(isInt(m.type)) return t+(m.type==RBUS_UINT64?strf(":%llu",(unsigned long long)m.u):strf(":%lld",(long long)m.i)); if(isNum(m.type)) return t+strf(":%.17g",m.d); if(m.null) return t+":NULL"; if(m.type==RBUS_DATETIME) return t+strf(":%d-%d-%dT%d:%d:%d %c%d:%d",m.t.m_time.tm_year,m.t.m_time.tm_mon,m.t.m_time.tm_mday,m.t.m_time.tm_hour,m.t.m_time.tm_min,m.t.m_time.tm_sec,m.t.m_tz.m_isWest?'-':'+',m.t.m_tz.m_tzhour,m.t.m_tz.m_tzmin); if(m.type==RBUS_STRING||m.type==RBUS_BYTES) return t+strf("[%zu]:",m.s.size())+hex(m.s.data(),std::min<size_t>(m.s.size(),24)); return t; }
// ------------------------------------------------------------------- build and verify
static rbusObject_t mkobj(MO const& o);
static rbusProperty_t mklist(std::vector<std::pair<std::string,MV>> const& ps);
static void put(rbusValue_t v, MV const& m)
{
  switch(m.type)
  {
    case RBUS_BOOLEAN: rbusValue_SetBoolean(v,m.i!=0); break; case RBUS_CHAR: rbusValue_SetChar(v,(char)m.i); break; case RBUS_BYTE: rbusValue_SetByte(v,(unsigned char)m.i); break;
    case RBUS_INT8: rbusValue_SetInt8(v,(int8_t)m.i); break; case RBUS_UINT8: rbusValue_SetUInt8(v,(uint8_t)m.i); break; case RBUS_INT16: rbusValue_SetInt16(v,(int16_t)m.i); break; case RBUS_UINT16: rbusValue_SetUInt16(v,(uint16_t)m.i); break;
    case RBUS_INT32: rbusValue_SetInt32(v,(int32_t)m.i); break; case RBUS_UINT32: rbusValue_SetUInt32(v,(uint32_t)m.i); break; case RBUS_INT64: rbusValue_SetInt64(v,m.i); break; case RBUS_UINT64: rbusValue_SetUInt64(v,m.u); break;
    case RBUS_SINGLE: rbusValue_SetSingle(v,(float)m.d); break; case RBUS_DOUBLE: rbusValue_SetDouble(v,m.d); break; case RBUS_DATETIME: rbusValue_SetTime(v,&m.t); break;
    case RBUS_STRING: rbusValue_SetString(v,m.null?NULL:m.s.c_str()); break; case RBUS_BYTES: rbusValue_SetBytes(v,m.null?NULL:(uint8_t const*)m.s.data(),(int)m.s.size()); break;
    case RBUS_PROPERTY: { rbusProperty_t p=mklist(m.props); rbusValue_SetProperty(v,p); if(p) rbusProperty_Release(p); break; }
    case RBUS_OBJECT: { rbusObject_t o=m.obj?mkobj(*m.obj):NULL; rbusValue_SetObject(v,o); if(o) rbusObject_Release(o); break; }
  }
}
static rbusValue_t mk(MV const& m, Rng* r=NULL)
{
  rbusValue_t v;
  if(r && r->chance(50)) switch(m.type)
  {
    case RBUS_BOOLEAN: return rbusValue_InitBoolean(m.i!=0); case RBUS_INT8: return rbusValue_InitInt8(m.i); case RBUS_UINT8: return rbusValue_InitUInt8(m.i); case RBUS_INT16: return rbusValue_InitInt16(m.i); case RBUS_UINT16: return rbusValue_InitUInt16(m.i);
    case RBUS_INT32: return rbusValue_InitInt32(m.i); case RBUS_UINT32: return rbusValue_InitUInt32(m.i); case RBUS_INT64: return rbusValue_InitInt64(m.i); case RBUS_UINT64: return rbusValue_InitUInt64(m.u); case RBUS_SINGLE: return rbusValue_InitSingle((float)m.d); case RBUS_DOUBLE: return rbusValue_InitDouble(m.d);
    case RBUS_STRING: return rbusValue_InitString(m.null?NULL:m.s.c_str()); case RBUS_BYTES: return rbusValue_InitBytes(m.null?NULL:(uint8_t const*)m.s.data(),(int)m.s.size()); case RBUS_DATETIME: return rbusValue_InitTime(&m.t); default: break;
  }
  rbusValue_Init(&v); put(v,m); return v;
}
static rbusProperty_t mklist(std::vector<std::pair<std::string,MV>> const& ps)
{
  rbusProperty_t first=NULL,last=NULL;
  for(auto& p: ps){ rbusValue_t v=mk(p.second); rbusProperty_t x; rbusProperty_Init(&x,p.first.c_str(),v); rbusValue_Release(v); if(!first) first=x; else { rbusProperty_SetNext(last,x); rbusProperty_Release(x);} last=x; }
  return first;
}
static rbusObject_t mkobj(MO const& o)
{
  rbusObject_t x; if(o.type==RBUS_OBJECT_MULTI_INSTANCE) rbusObject_InitMultiInstance(&x,o.name.c_str()); else rbusObject_Init(&x,o.name.c_str());
  rbusProperty_t p=mklist(o.props); rbusObject_SetProperties(x,p); if(p) rbusProperty_Release(p);
  rbusObject_t first=NULL,last=NULL; for(auto& k: o.kids){ rbusObject_t c=mkobj(*k); if(!first) first=c; else { rbusObject_SetNext(last,c); rbusObject_Release(c);} last=c; }
  if(first){ rbusObject_SetChildren(x,first); rbusObject_Release(first); }
  return x;
}
static bool deq(double a,double b){ return (std::isnan(a)&&std::isnan(b)) || (a==b && std::signbit(a)==std::signbit(b)); }
static std::string verObj(rbusObject_t o, MO const& m, bool wire);
static std::string ver(rbusValue_t v, MV const& m, bool wire=false); // "" when v holds exactly m
static std::string verList(rbusProperty_t p, std::vector<std::pair<std::string,MV>> const& ps, bool wire)
{
  if(rbusProperty_Count(p)!=ps.size()) return strf("list has %u entries, not %zu",rbusProperty_Count(p),ps.size());
  for(auto& e: ps){ char const* n=rbusProperty_GetName(p); if(!n||e.first!=n) return strf("name '%s' instead of '%s'",n?n:"NULL",e.first.c_str()); std::string x=ver(rbusProperty_GetValue(p),e.second,wire); if(!x.empty()) return e.first+": "+x; p=rbusProperty_GetNext(p); }
  return p?"list longer than counted":"";
}
static std::string ver(rbusValue_t v, MV const& m, bool wire)
{
  int want=m.type; if(wire && m.type==RBUS_OBJECT && m.null) want=RBUS_NONE;
  if(!v) return "no value"; if(rbusValue_GetType(v)!=want) return strf("type %s, not %s",rbusValueType_ToDebugString(rbusValue_GetType(v)),rbusValueType_ToDebugString((rbusValueType_t)want));
#define G(T,C,X) { C x; if(rbusValue_Get##T##Ex(v,&x)!=RBUS_VALUE_ERROR_SUCCESS) return "Ex getter refused"; if(x!=(X) || rbusValue_Get##T(v)!=(X)) return #T " content differs: "+show(m); break; }
  switch(want)
  {
    case RBUS_BOOLEAN: G(Boolean,bool,m.i!=0) case RBUS_CHAR: G(Char,char,(char)m.i) case RBUS_BYTE: G(Byte,unsigned char,(unsigned char)m.i) case RBUS_INT8: G(Int8,int8_t,(int8_t)m.i) case RBUS_UINT8: G(UInt8,uint8_t,(uint8_t)m.i)
    case RBUS_INT16: G(Int16,int16_t,(int16_t)m.i) case RBUS_UINT16: G(UInt16,uint16_t,(uint16_t)m.i) case RBUS_INT32: G(Int32,int32_t,(int32_t)m.i) case RBUS_UINT32: G(UInt32,uint32_t,(uint32_t)m.i) case RBUS_INT64: G(Int64,int64_t,m.i) case RBUS_UINT64: G(UInt64,uint64_t,m.u)
    case RBUS_SINGLE: { float f; if(rbusValue_GetSingleEx(v,&f)!=RBUS_VALUE_ERROR_SUCCESS||!deq(f,m.d)||!deq(rbusValue_GetSingle(v),m.d)) return "float differs"; break; }
    case RBUS_DOUBLE: { double f; if(rbusValue_GetDoubleEx(v,&f)!=RBUS_VALUE_ERROR_SUCCESS||!deq(f,m.d)||!deq(rbusValue_GetDouble(v),m.d)) return "double differs"; break; }
    case RBUS_DATETIME: { rbusDateTime_t const* t=rbusValue_GetTime(v); rbusDateTime_t const* t2=NULL; if(rbusValue_GetTimeEx(v,&t2)!=RBUS_VALUE_ERROR_SUCCESS||t2!=t) return "GetTimeEx"; if(memcmp(&t->m_time,&m.t.m_time,sizeof m.t.m_time)||t->m_tz.m_tzhour!=m.t.m_tz.m_tzhour||t->m_tz.m_tzmin!=m.t.m_tz.m_tzmin||t->m_tz.m_isWest!=m.t.m_tz.m_isWest) return "time differs: "+show(m); break; }
    case RBUS_STRING: { int len=-7; char const* s=rbusValue_GetString(v,&len); if(m.null){ if(s||len!=0) return "NULL string reads non-NULL"; break; } if(!s||len!=(int)m.s.size()||m.s!=s) return strf("string differs, length %d want %zu",len,m.s.size()); char const* s2=NULL; int l2; if(rbusValue_GetStringEx(v,&s2,&l2)!=RBUS_VALUE_ERROR_SUCCESS||s2!=s||l2!=len) return "GetStringEx"; if(rbusValue_GetString(v,NULL)!=s) return "GetString without length"; break; }
    case RBUS_BYTES: { int len=-7; uint8_t const* s=rbusValue_GetBytes(v,&len); if(m.null||m.s.empty()){ if(len!=0||(m.null&&!wire&&s)) return "empty bytes read non-empty"; break; } if(!s||len!=(int)m.s.size()||memcmp(s,m.s.data(),len)) return strf("bytes differ, length %d want %zu",len,m.s.size()); break; }
    case RBUS_PROPERTY: return verList(rbusValue_GetProperty(v),m.props,wire);
    case RBUS_OBJECT: if(m.null) return rbusValue_GetObject(v)?"object instead of NULL":""; if(!rbusValue_GetObject(v)) return "object missing"; return verObj(rbusValue_GetObject(v),*m.obj,wire);
  }
  return "";
}
static std::string verObj(rbusObject_t o, MO const& m, bool wire)
{
  if(m.name!=(rbusObject_GetName(o)?rbusObject_GetName(o):"")) return "object name "+m.name; if(rbusObject_GetType(o)!=m.type) return "object type";
  std::string x=verList(rbusObject_GetProperties(o),m.props,wire); if(!x.empty()) return x;
  rbusObject_t c=rbusObject_GetChildren(o); for(auto& k: m.kids){ if(!c) return "child missing"; x=verObj(c,*k,wire); if(!x.empty()) return "child "+k->name+": "+x; c=rbusObject_GetNext(c); }
  return c?"extra child":"";
}
// wrong-type getters must refuse and leave the output alone
static void wrongType(rbusValue_t v, MV const& m)
{
#define W(T,C,TY) if(m.type!=TY){ C x; memset(&x,0x5a,sizeof x); C y=x; CHECK(rbusValue_Get##T##Ex(v,&x)==RBUS_VALUE_ERROR_TYPE && !memcmp(&x,&y,sizeof x),"getter-type","Get" #T "Ex accepted %s",show(m).c_str()); }
  W(Char,char,RBUS_CHAR) W(Byte,unsigned char,RBUS_BYTE) W(Int8,int8_t,RBUS_INT8) W(UInt8,uint8_t,RBUS_UINT8) W(Int16,int16_t,RBUS_INT16) W(UInt16,uint16_t,RBUS_UINT16) W(Int32,int32_t,RBUS_INT32) W(UInt32,uint32_t,RBUS_UINT32) W(Int64,int64_t,RBUS_INT64) W(UInt64,uint64_t,RBUS_UINT64) W(Single,float,RBUS_SINGLE) W(Double,double,RBUS_DOUBLE)
  if(m.type!=RBUS_BOOLEAN){ bool b=true; CHECK(rbusValue_GetBooleanEx(v,&b)==RBUS_VALUE_ERROR_TYPE&&b,"getter-type","GetBooleanEx accepted %s",show(m).c_str()); }
  if(m.type!=RBUS_DATETIME){ rbusDateTime_t const* t=NULL; CHECK(rbusValue_GetTimeEx(v,&t)==RBUS_VALUE_ERROR_TYPE&&!t,"getter-type","GetTimeEx accepted %s",show(m).c_str()); }
  if(m.type!=RBUS_STRING&&m.type!=RBUS_BYTES){ char const* s=NULL; int l=-3; CHECK(rbusValue_GetStringEx(v,&s,&l)==RBUS_VALUE_ERROR_TYPE&&!s&&l==-3,"getter-type","GetStringEx accepted %s",show(m).c_str()); }
  if(m.type!=RBUS_OBJECT){ rbusObject_t o=NULL; CHECK(rbusValue_GetObjectEx(v,&o)==RBUS_VALUE_ERROR_TYPE&&!o,"getter-type","GetObjectEx accepted %s",show(m).c_str()); }
  if(m.type!=RBUS_PROPERTY){ rbusProperty_t o=NULL; CHECK(rbusValue_GetPropertyEx(v,&o)==RBUS_VALUE_ERROR_TYPE&&!o,"getter-type","GetPropertyEx accepted %s",show(m).c_str()); }
}
static int sgn(i128 x){ return (x>0)-(x<0); }
static const int UNDEF=9;
static int mcmp(MV const& a, MV const& b) // -1,0,1, or UNDEF when only (non-)equality is specified; 8: unequal
{
  if(isNum(a.type)&&isNum(b.type))
  {
    if(isInt(a.type)&&isInt(b.type)){ i128 x=a.type==RBUS_UINT64?(i128)a.u:(i128)a.i,y=b.type==RBUS_UINT64?(i128)b.u:(i128)b.i; return sgn(x-y); }
    double x=isInt(a.type)?(a.type==RBUS_UINT64?(double)a.u:(double)a.i):a.d,y=isInt(b.type)?(b.type==RBUS_UINT64?(double)b.u:(double)b.i):b.d;
    if(std::isnan(x)||std::isnan(y)) return std::isnan(x)&&std::isnan(y)?0:8;
    return (x>y)-(x<y);
  }
  if(a.type!=b.type) return 8;
  if(a.null||b.null){ if(a.type==RBUS_BYTES&&a.s.empty()&&b.s.empty()) return UNDEF; return a.null&&b.null?0:8; }
  switch(a.type)
  {
    case RBUS_STRING: return sgn(strcmp(a.s.c_str(),b.s.c_str()));
    case RBUS_BYTES: { int c=memcmp(a.s.data(),b.s.data(),std::min(a.s.size(),b.s.size())); return c?sgn(c):sgn((i128)a.s.size()-(i128)b.s.size()); }
    case RBUS_DATETIME: return sgn(instant(a.t)-instant(b.t));
  }
  if(a.type==RBUS_PROPERTY&&a.props.size()!=b.props.size()) return 8;
  return UNDEF;
}
static MV mutate(Rng& r, MV m) // a close neighbour
{
  if(isNum(m.type)&&r.chance(25)) // the same number, or one a fraction away, in another kind of type
  {
    double d=isInt(m.type)?(m.type==RBUS_UINT64?(double)m.u:(double)m.i):m.d;
    if(std::fabs(d)<1e6){ MV n; static const double off[]={0,0.5,-0.5,0.25,-0.25}; d=std::trunc(d)+off[r.below(5)]; if(isInt(m.type)||r.chance(40)){ n.type=r.chance(50)?RBUS_SINGLE:RBUS_DOUBLE; n.d=d; } else { n.type=r.chance(50)?RBUS_INT32:RBUS_INT64; n.i=(int64_t)d; n.u=(uint64_t)n.i; } return n; }
  }
  if(m.type==RBUS_PROPERTY){ if(m.props.empty()||r.chance(60)) m.props.push_back({"extra",rmv(r,0)}); else m.props.pop_back(); return m; }
  if(isInt(m.type)){ i128 lo,hi; range(m.type,lo,hi); i128 v=(m.type==RBUS_UINT64?(i128)m.u:(i128)m.i)+r.range(-1,1); if(v<lo)v=lo; if(v>hi)v=hi; m.u=(uint64_t)v; m.i=(int64_t)v; if(r.chance(30)){ int t=r.pick(SCALARS); if(isInt(t)){ range(t,lo,hi); if(v>=lo&&v<=hi) m.type=t; } } return m; }
  switch(m.type){ case RBUS_SINGLE: m.d=nextafterf((float)m.d,r.chance(50)?INFINITY:-INFINITY); break; case RBUS_DOUBLE: m.d=nextafter(m.d,r.chance(50)?INFINITY:-INFINITY); break;
    case RBUS_STRING: case RBUS_BYTES: if(m.null) break; if(!m.s.empty()&&r.chance(60)){ size_t i=r.below(m.s.size()); m.s[i]=(char)(m.s[i]^ (1<<r.below(7))); if(m.type==RBUS_STRING&&!m.s[i]) m.s[i]='x'; } else if(r.chance(50)) m.s+="z"; else if(!m.s.empty()) m.s.pop_back(); break;
    case RBUS_DATETIME: switch(r.below(3)){ case 0: m.t.m_time.tm_sec=r.range(0,59); break; case 1: m.t.m_tz.m_tzhour=r.range(0,12); break; default: { int h=r.range(1,5); m.t.m_time.tm_hour=r.range(6,12); m.t.m_tz.m_isWest=false; m.t.m_tz.m_tzhour=h; } } break; }
  return m;
}
static std::string isoText(rbusDateTime_t const& t){ std::string s=strf("%04d-%02d-%02dT%02d:%02d:%02d",t.m_time.tm_year+1900,t.m_time.tm_mon+1,t.m_time.tm_mday,t.m_time.tm_hour,t.m_time.tm_min,t.m_time.tm_sec); if(t.m_tz.m_tzhour||t.m_tz.m_tzmin) s+=strf("%c%02d:%02d",t.m_tz.m_isWest?'-':'+',t.m_tz.m_tzhour,t.m_tz.m_tzmin); else s+="Z"; return s; }
static std::string num(i128 v){ bool n=v<0; if(n) v=-v; std::string s; do{ s.insert(s.begin(),(char)('0'+(int)(v%10))); v/=10; }while(v); return n?"-"+s:s; }
static bool text(MV const& m, std::string& s) // expected text, false when not specified
{
  if(m.null) return false;
  switch(m.type){ case RBUS_BOOLEAN: s=m.i?"true":"false"; return true; case RBUS_CHAR: s=m.i?std::string(1,(char)m.i):""; return true; case RBUS_BYTE: s=strf("%x",(unsigned)m.i); return true; case RBUS_STRING: s=m.s; return true; case RBUS_DATETIME: s=isoText(m.t); return true; case RBUS_BYTES: { s.clear(); for(unsigned char c: m.s) s+=strf("%02X",c); return true; } case RBUS_UINT64: s=num(m.u); return true; }
  if(isInt(m.type)){ s=num(m.i); return true; }
  return false;
}
static void roundtrips(Rng& r, rbusValue_t v, MV const& m)
{
  // message
  rbusMessage msg; rbusMessage_Init(&msg); rbusValue_appendToMessage("the.name",v,msg);
  uint8_t* b; uint32_t n; rbusMessage_ToBytes(msg,&b,&n); std::vector<uint8_t> copy(b,b+n); rbusMessage m2; rbusMessage_FromBytes(&m2,copy.data(),n);
  char const* nm=NULL; rbusMessage_GetString(m2,&nm); CHECK(nm&&!strcmp(nm,"the.name"),"msg-name","name lost"); rbusValue_t w=NULL; CHECK(rbusValue_initFromMessage(&w,m2)==RBUS_ERROR_SUCCESS,"msg-read","value %s not readable from message",show(m).c_str());
  std::string e=ver(w,m,true); CHECK(e.empty(),"msg-roundtrip","%s after message: %s",show(m).c_str(),e.c_str());
  int32_t left; CHECK(rbusMessage_GetInt32(m2,&left)!=RT_OK,"msg-rest","message longer than its content");
  rbusValue_Release(w); rbusMessage_Release(m2); rbusMessage_Release(msg); stat("message_roundtrips");
  if(m.type!=RBUS_PROPERTY&&m.type!=RBUS_OBJECT&&m.s.size()<60000)
  { // TLV buffer, several values one after the other, at every fill level of the buffer
    rbusBuffer_t bf; rbusBuffer_Create(&bf); int k=r.range(1,4); for(int i=0;i<k;i++) rbusValue_Encode(v,bf);
    for(int i=0;i<k;i++){ rbusValue_t d=NULL; CHECK(rbusValue_Decode(&d,bf)>=0,"tlv-decode","decode %d of %d of %s failed",i,k,show(m).c_str()); e=ver(d,m,true); CHECK(e.empty(),"tlv-roundtrip","%s after encode/decode: %s",show(m).c_str(),e.c_str()); rbusValue_Release(d); }
    CHECK(bf->posRead==bf->posWrite,"tlv-rest","decoder stopped at %d of %d",bf->posRead,bf->posWrite); rbusBuffer_Destroy(bf); stat("tlv_roundtrips");
    rbusValue_t t; rbusValue_Init(&t); if(r.chance(50)) rbusValue_SetString(t,"previous content"); rbusValue_SetTLV(t,rbusValue_GetType(v),rbusValue_GetL(v),rbusValue_GetV(v)); e=ver(t,m,true); CHECK(e.empty()||(m.null&&m.type==RBUS_BYTES),"settlv","%s after SetTLV: %s",show(m).c_str(),e.c_str()); rbusValue_Release(t);
  }
  // text
  std::string want; char* s=rbusValue_ToString(v,NULL,0);
  if(text(m,want))
  {
    CHECK(s&&want==s,"text","%s prints '%s', expected '%s'",show(m).c_str(),s?s:"NULL",want.c_str());
    size_t bl=r.chance(50)?want.size()+1+r.below(20):r.below(want.size()+2); char* ub=(char*)malloc(bl?bl:1); memset(ub,0x7e,bl?bl:1); char* rp=rbusValue_ToString(v,ub,bl); CHECK(rp==ub,"text-buf","user buffer not returned");
    if(bl&&m.type==RBUS_STRING&&bl<=want.size()){ CHECK(!memcmp(ub,want.data(),bl),"text-trunc","buffer of %zu bytes does not hold the first characters of %s",bl,show(m).c_str()); }
    else if(bl){ CHECK(memchr(ub,0,bl),"text-term","%s in a %zu byte buffer is not terminated",show(m).c_str(),bl); std::string got=ub; std::string exp=want.substr(0,bl-1); if(m.type==RBUS_BYTES) exp=exp.substr(0,exp.size()/2*2); CHECK(got==exp,"text-trunc","buffer of %zu holds '%s', expected '%s'",bl,got.c_str(),exp.c_str()); } free(ub);
    if(m.type!=RBUS_BYTE&&m.type!=RBUS_BYTES&&!(m.type==RBUS_CHAR&&m.i==0)){ rbusValue_t p; rbusValue_Init(&p); if(r.chance(30)) rbusValue_SetInt32(p,77); CHECK(rbusValue_SetFromString(p,(rbusValueType_t)m.type,want.c_str()),"parse","'%s' not accepted as %s",want.c_str(),rbusValueType_ToDebugString((rbusValueType_t)m.type)); 
      if(m.type==RBUS_DATETIME){ CHECK(rbusValue_Compare(p,v)==0&&!memcmp(&rbusValue_GetTime(p)->m_tz,&m.t.m_tz,sizeof(int32_t)*2)&&rbusValue_GetTime(p)->m_time.tm_hour==m.t.m_time.tm_hour&&rbusValue_GetTime(p)->m_time.tm_mday==m.t.m_time.tm_mday,"parse-time","%s parsed differently",want.c_str()); }
      else { e=ver(p,m,true); CHECK(e.empty(),"parse-value","'%s' parsed differently: %s",want.c_str(),e.c_str()); } rbusValue_Release(p); stat("text_roundtrips"); }
  }
  else if(isNum(m.type)&&std::isfinite(m.d)){ double tol=m.type==RBUS_SINGLE?1e-6:1e-15; double got=strtod(s,NULL); CHECK(std::fabs(got-m.d)<=tol+std::fabs(m.d)*1e-15,"text-float","%s prints '%s'",show(m).c_str(),s); rbusValue_t p; rbusValue_Init(&p); if(got==0||std::fabs(got)>1e-30){ bool ok=rbusValue_SetFromString(p,(rbusValueType_t)m.type,s+strspn(s," ")); CHECK(ok&&rbusValue_GetType(p)==m.type,"parse-float","'%s' not accepted",s); double g=m.type==RBUS_SINGLE?rbusValue_GetSingle(p):rbusValue_GetDouble(p); CHECK(std::fabs(g-m.d)<=tol+std::fabs(m.d)*1e-6,"parse-float-value","'%s' parses to %g",s,g);} rbusValue_Release(p); }
  free(s);
  char* ds=rbusValue_ToDebugString(v,NULL,0); CHECK(ds!=NULL||m.type==RBUS_NONE,"debugstring","no debug string"); free(ds);
}
static void parseText(Rng& r)
{
  // random decimal texts against exact arithmetic, and near misses
  int t=r.pick(SCALARS); if(!isInt(t)||t==RBUS_BOOLEAN||t==RBUS_CHAR||t==RBUS_BYTE) t=RBUS_INT32;
  i128 lo,hi; range(t,lo,hi); i128 v=0; switch(r.below(6)){ case 0: v=hi; break; case 1: v=hi+r.range(1,3); break; case 2: v=lo; break; case 3: v=lo-r.range(1,3); break; case 4: v=(i128)(int64_t)r.u()>>r.below(60); break; default: v=(i128)r.u()*(i128)r.range(1,2000)*(r.chance(50)?1:-1); }
  std::string s=num(v); bool ok=v>=lo&&v<=hi; int dec=r.below(6);
  if(dec==0){ s+=r.chance(50)?"x":" "; ok=false; } else if(dec==1) s=" "+s; else if(dec==2&&v>0) s="+"+s; else if(dec==3&&r.chance(30)){ s=r.chance(50)?"":"-"; ok=false; }
  rbusValue_t p; rbusValue_Init(&p); rbusValue_SetInt32(p,4711); g_case=strf("parse '%s' as type %x",s.c_str(),t);
  bool got=rbusValue_SetFromString(p,(rbusValueType_t)t,s.c_str()); CHECK(got==ok,"parse-accept","'%s' as %s: accepted=%d expected=%d",s.c_str(),rbusValueType_ToDebugString((rbusValueType_t)t),got,ok);
  if(ok){ MV m; m.type=t; m.i=(int64_t)v; m.u=(uint64_t)v; std::string e=ver(p,m); CHECK(e.empty(),"parse-number","'%s': %s",s.c_str(),e.c_str()); } else CHECK(rbusValue_GetType(p)==RBUS_INT32&&rbusValue_GetInt32(p)==4711,"parse-reject-changes","refused text changed the value");
  rbusValue_Release(p); stat("parsed_texts"); distinct(strf("parse/%x/%d/%d",t,ok,dec));
}
static void caseValue(Rng& r)
{
  size_t h0=heap_bytes(); 
  { // scope so that the model's memory is gone before the heap is compared
    std::vector<std::pair<rbusValue_t,MV>> pool; std::vector<int> refs;
    int steps=r.range(10,40);
    for(int s=0;s<steps;s++)
    {
      int op=r.below(10); MV m=rmv(r,2); g_case=strf("step %d op %d %s",s,op,show(m).c_str()); distinct(strf("val/%x/%d/%zu/%d",m.type,op,std::min<size_t>(m.s.size(),66),m.null));
      if(pool.empty()||op<2){ rbusValue_t v=mk(m,&r); CHECK(ver(v,m).empty(),"store","%s: %s",show(m).c_str(),ver(v,m).c_str()); pool.push_back({v,m}); refs.push_back(1); continue; }
      size_t k=r.below(pool.size()); auto& pv=pool[k];
      if(op<4){ put(pv.first,m); pv.second=m; std::string e=ver(pv.first,m); CHECK(e.empty(),"overwrite","%s: %s",show(m).c_str(),e.c_str()); wrongType(pv.first,m); }
      else if(op==4){ // copy is independent
        rbusValue_t c; rbusValue_Init(&c); if(r.chance(60)) put(c,m); rbusValue_Copy(c,pv.first); std::string e=ver(c,pv.second); CHECK(e.empty(),"copy","copy of %s: %s",show(pv.second).c_str(),e.c_str()); put(pv.first,m); e=ver(c,pool[k].second); CHECK(e.empty(),"copy-independent","copy changed with its source: %s",e.c_str()); MV old=pv.second; pv.second=m; put(c,rmv(r,0)); e=ver(pv.first,m); CHECK(e.empty(),"copy-independent","source changed with its copy: %s",e.c_str()); rbusValue_Release(c); }
      else if(op==5){ size_t j=r.below(pool.size()); rbusValue_Swap(&pool[k].first,&pool[j].first); std::swap(pool[k].second,pool[j].second); std::swap(refs[k],refs[j]); CHECK(ver(pool[k].first,pool[k].second).empty()&&ver(pool[j].first,pool[j].second).empty(),"swap","swap mixed up values"); }
      else if(op==6){ rbusValue_Retain(pv.first); refs[k]++; if(r.chance(50)){ rbusValue_Release(pv.first); refs[k]--; } CHECK(ver(pv.first,pv.second).empty(),"retain","value changed"); }
      else if(op==7){ size_t j=r.below(pool.size()); rbusValue_t x=pool[j].first; rbusValue_Retain(x); rbusValue_t self=x; rbusValue_SetPointer(&self,pool[k].first); std::string e=ver(self,pool[k].second); CHECK(e.empty(),"setpointer","%s",e.c_str()); rbusValue_Release(self); 
        rbusValue_t only=mk(m); rbusValue_t alias=only; rbusValue_SetPointer(&alias,only); CHECK(alias==only&&ver(only,m).empty(),"setpointer-self","assigning a value to itself destroyed it"); rbusValue_Release(only); }
      else if(op==8){ roundtrips(r,pv.first,pv.second); }
      else { size_t j=r.below(pool.size()); MV a=pool[k].second,b=r.chance(50)?mutate(r,a):pool[j].second; rbusValue_t vb=mk(b); int c=rbusValue_Compare(pool[k].first,vb),d=rbusValue_Compare(vb,pool[k].first),x=mcmp(a,b);
        g_case=show(a)+" vs "+show(b); if(x==8) CHECK(c!=0&&d!=0,"cmp-unequal","different values compare equal: %s",g_case.c_str()); else if(x!=UNDEF) CHECK(sgn(c)==x&&sgn(d)==-x,"cmp","compare gives %d/%d, expected %d: %s",c,d,x,g_case.c_str());
        rbusValue_t cc=mk(a); CHECK(rbusValue_Compare(pool[k].first,cc)==0,"cmp-same","equal content compares unequal: %s",show(a).c_str()); rbusValue_Release(cc); rbusValue_Release(vb); stat("comparisons"); }
    }
    for(int i=0;i<6;i++) parseText(r);
    for(size_t i=0;i<pool.size();i++) CHECK(ver(pool[i].first,pool[i].second).empty(),"final","value %zu changed by itself: %s",i,ver(pool[i].first,pool[i].second).c_str());
    // release in random order; a retained holder keeps the content
    while(!pool.empty()){ size_t i=r.below(pool.size()); CHECK(ver(pool[i].first,pool[i].second).empty(),"retained","a held value lost its content"); rbusValue_Release(pool[i].first); if(--refs[i]==0){ pool.erase(pool.begin()+i); refs.erase(refs.begin()+i); } }
    std::string().swap(g_case);
  }
  size_t h1=heap_bytes(); static int warm=0; if(++warm>3) { /* g_stat/g_distinct may grow: compare with slack only through the leak cycle below */ }
  (void)h0; (void)h1;
}
// leak oracle: the same operations repeated must not grow the heap
static void leakCycle(uint64_t seed, void (*body)(Rng&), const char* what)
{
  auto run=[&]{ Rng r(seed); body(r); }; run(); run(); size_t a=heap_bytes(); for(int i=0;i<5;i++) run(); size_t b=heap_bytes(); CHECK(b<=a,"leak","%s: repeating the same operations 5 times leaves %zd more bytes allocated",what,(ssize_t)(b-a)); stat("leak_cycles");
}
// every typed accessor of properties and objects stores and yields exactly the value
static void typed(Rng& r)
{
  rbusObject_t o; rbusObject_Init(&o,"typed"); rbusProperty_t list=NULL; std::vector<std::pair<std::string,MV>> l; rbusProperty_t pr=rbusProperty_InitBoolean("first",true);
  for(int i=0;i<24;i++)
  {
    MV m=rmv(r,1); if(m.s.size()>5000) continue; std::string k=strf("t%d",i%9); rbusValue_t v=mk(m),got=NULL; rbusProperty_t p=NULL,a=NULL; bool ex=true; g_case="typed "+show(m); char const* n=k.c_str();
    rbusProperty_t before=rbusObject_GetProperty(o,n); (void)before;
#define TY(T,RT,C,GET,SAME) case RT: { C x=(C)GET; p=rbusProperty_Init##T(n,x); if(!list) list=p,rbusProperty_Retain(list); else a=rbusProperty_Append##T(list,n,x); rbusProperty_Set##T(pr,x); rbusObject_SetProperty##T(o,n,x); C y; C z; memset(&y,0,sizeof y); memset(&z,0,sizeof z); ex=rbusProperty_Get##T##Ex(pr,&y)==RBUS_VALUE_ERROR_SUCCESS&&rbusObject_GetProperty##T(o,n,&z)==RBUS_VALUE_ERROR_SUCCESS; C w=rbusProperty_Get##T(pr); ex=ex&&SAME(y,x)&&SAME(z,x)&&SAME(w,x); break; }
#define EQ(A,B) ((A)==(B))
#define FEQ(A,B) (deq(A,B))
#define ANY(A,B) ((A)!=NULL||(B)==NULL)
    rbusProperty_t sub=NULL; rbusObject_t so=NULL; if(m.type==RBUS_PROPERTY) sub=rbusValue_GetProperty(v); if(m.type==RBUS_OBJECT) so=rbusValue_GetObject(v);
    switch(m.type)
    {
      TY(Boolean,RBUS_BOOLEAN,bool,(m.i!=0),EQ) TY(Char,RBUS_CHAR,char,m.i,EQ) TY(Byte,RBUS_BYTE,unsigned char,m.i,EQ) TY(Int8,RBUS_INT8,int8_t,m.i,EQ) TY(UInt8,RBUS_UINT8,uint8_t,m.i,EQ) TY(Int16,RBUS_INT16,int16_t,m.i,EQ) TY(UInt16,RBUS_UINT16,uint16_t,m.i,EQ) TY(Int32,RBUS_INT32,int32_t,m.i,EQ) TY(UInt32,RBUS_UINT32,uint32_t,m.i,EQ) TY(Int64,RBUS_INT64,int64_t,m.i,EQ) TY(UInt64,RBUS_UINT64,uint64_t,m.u,EQ) TY(Single,RBUS_SINGLE,float,m.d,FEQ) TY(Double,RBUS_DOUBLE,double,m.d,FEQ)
      TY(Time,RBUS_DATETIME,rbusDateTime_t const*,&m.t,ANY) TY(Object,RBUS_OBJECT,rbusObject_t,so,EQ)
      case RBUS_PROPERTY: { if(!sub){ rbusValue_Release(v); continue; } p=rbusProperty_InitProperty(n,sub); if(!list) list=p,rbusProperty_Retain(list); else a=rbusProperty_AppendProperty(list,n,sub); rbusProperty_SetProperty(pr,sub); rbusObject_SetPropertyProperty(o,n,sub); rbusProperty_t y=NULL,z=NULL; ex=rbusProperty_GetPropertyEx(pr,&y)==RBUS_VALUE_ERROR_SUCCESS&&rbusObject_GetPropertyProperty(o,n,&z)==RBUS_VALUE_ERROR_SUCCESS&&y==sub&&z==sub&&rbusProperty_GetProperty(pr)==sub; break; }
      case RBUS_STRING: { char const* x=m.null?NULL:m.s.c_str(); p=rbusProperty_InitString(n,x); if(!list) list=p,rbusProperty_Retain(list); else a=rbusProperty_AppendString(list,n,x); rbusProperty_SetString(pr,x); rbusObject_SetPropertyString(o,n,x); char const *y=NULL,*z=NULL; int ly=-1,lz=-1,lw=-1; ex=rbusProperty_GetStringEx(pr,&y,&ly)==RBUS_VALUE_ERROR_SUCCESS&&rbusObject_GetPropertyString(o,n,&z,&lz)==RBUS_VALUE_ERROR_SUCCESS; char const* w=rbusProperty_GetString(pr,&lw); ex=ex&&(x?(y&&z&&w&&m.s==y&&m.s==z&&m.s==w):(!y&&!z&&!w))&&ly==(int)m.s.size()&&lz==ly&&lw==ly; break; }
      case RBUS_BYTES: { uint8_t const* x=m.null?NULL:(uint8_t const*)m.s.data(); int len=(int)m.s.size(); p=rbusProperty_InitBytes(n,x,len); if(!list) list=p,rbusProperty_Retain(list); else a=rbusProperty_AppendBytes(list,n,x,len); rbusProperty_SetBytes(pr,x,len); rbusObject_SetPropertyBytes(o,n,x,len); uint8_t const *y=NULL,*z=NULL; int ly=-1,lz=-1,lw=-1; ex=rbusProperty_GetBytesEx(pr,&y,&ly)==RBUS_VALUE_ERROR_SUCCESS&&rbusObject_GetPropertyBytes(o,n,&z,&lz)==RBUS_VALUE_ERROR_SUCCESS; uint8_t const* w=rbusProperty_GetBytes(pr,&lw); ex=ex&&ly==len&&lz==len&&lw==len&&(len==0||(y&&z&&w&&!memcmp(x,y,len)&&!memcmp(x,z,len)&&!memcmp(x,w,len))); break; }
      default: rbusValue_Release(v); continue;
    }
    l.push_back({k,m}); CHECK(ex,"typed-accessor","typed accessors do not give %s back",show(m).c_str());
    std::string e=ver(rbusProperty_GetValue(p),m); CHECK(e.empty()&&k==rbusProperty_GetName(p),"typed-init","%s",e.c_str()); e=ver(rbusProperty_GetValue(pr),m); CHECK(e.empty()&&!strcmp("first",rbusProperty_GetName(pr)),"typed-set","%s",e.c_str()); e=ver(rbusObject_GetValue(o,n),m); CHECK(e.empty(),"typed-object","%s",e.c_str()); if(a){ e=ver(rbusProperty_GetValue(a),m); CHECK(e.empty()&&rbusProperty_GetNext(a)==NULL,"typed-append","%s",e.c_str()); }
    // set to what it already is
    if(m.type==RBUS_STRING){ rbusProperty_SetString(pr,rbusProperty_GetString(pr,NULL)); e=ver(rbusProperty_GetValue(pr),m); CHECK(e.empty(),"typed-self","%s",e.c_str()); } else if(m.type==RBUS_PROPERTY){ rbusProperty_SetProperty(p,rbusProperty_GetProperty(p)); e=ver(rbusProperty_GetValue(p),m); CHECK(e.empty(),"typed-self","%s",e.c_str()); } else if(m.type==RBUS_OBJECT&&so){ rbusProperty_SetObject(p,rbusProperty_GetObject(p)); e=ver(rbusProperty_GetValue(p),m); CHECK(e.empty(),"typed-self","%s",e.c_str()); }
    rbusValue_Release(v); rbusProperty_Release(p); stat("typed_accessors");
  }
  std::string e=verList(list,l,false); CHECK(e.empty(),"typed-list","%s",e.c_str()); if(list) rbusProperty_Release(list); rbusProperty_Release(pr); rbusObject_Release(o);
}
// ------------------------------------------------------------------- objects
struct PO { rbusObject_t o; MO m; };
static void caseObject(Rng& r)
{
  std::vector<PO> pool; int np=r.range(1,3); for(int i=0;i<np;i++){ MOp m=rmo(r,r.range(0,2)); pool.push_back({mkobj(*m),*m}); }
  int steps=r.range(10,50);
  for(int s=0;s<steps;s++)
  {
    PO& p=pool[r.below(pool.size())]; int op=r.below(13); std::string k=p.m.props.empty()||r.chance(50)?strf("Prop%d",r.range(0,30)):p.m.props[r.below(p.m.props.size())].first; MV v=rmv(r,1);
    g_case=strf("step %d op %d name %s %s",s,op,k.c_str(),show(v).c_str()); distinct(strf("obj/%d/%zu/%zu/%x",op,p.m.props.size(),p.m.kids.size(),v.type));
    auto it=std::find_if(p.m.props.begin(),p.m.props.end(),[&](std::pair<std::string,MV> const& e){return e.first==k;});
    switch(op)
    {
      case 0: case 1: { rbusValue_t x=mk(v),old=rbusObject_GetValue(p.o,k.c_str()); MV om; if(it!=p.m.props.end()) om=it->second; if(old) rbusValue_Retain(old); if(op) rbusObject_SetValue(p.o,k.c_str(),x); else rbusObject_SetPropertyValue(p.o,k.c_str(),x); if(old){ std::string e=ver(old,om); CHECK(e.empty(),"replaced-held","a value held by someone else changed when its name was given another value: %s",e.c_str()); rbusValue_Release(old); } std::string e2=ver(x,v); CHECK(e2.empty(),"set-source","%s",e2.c_str()); rbusValue_Release(x); if(it==p.m.props.end()) p.m.props.push_back({k,v}); else it->second=v; break; }
      case 2: { rbusValue_t x=mk(v); rbusProperty_t q; rbusProperty_Init(&q,k.c_str(),x); rbusValue_Release(x); rbusObject_SetProperty(p.o,q); if(r.chance(30)) rbusObject_SetProperty(p.o,q); rbusProperty_Release(q); if(it==p.m.props.end()) p.m.props.push_back({k,v}); else it->second=v; break; }
      case 3: { rbusProperty_t q=rbusObject_GetProperty(p.o,k.c_str()); CHECK((q!=NULL)==(it!=p.m.props.end()),"lookup","property %s found %d",k.c_str(),q!=NULL); if(q){ std::string e=ver(rbusProperty_GetValue(q),it->second); CHECK(e.empty()&&k==rbusProperty_GetName(q),"lookup-value","%s: %s",k.c_str(),e.c_str()); if(r.chance(50)){ rbusObject_SetProperty(p.o,q); } } break; }
      case 4: { rbusValue_t q=r.chance(50)?rbusObject_GetValue(p.o,k.c_str()):rbusObject_GetPropertyValue(p.o,k.c_str()); CHECK((q!=NULL)==(it!=p.m.props.end()),"getvalue","value %s found %d",k.c_str(),q!=NULL); if(q) CHECK(ver(q,it->second).empty(),"getvalue-content","%s",ver(q,it->second).c_str()); rbusValue_t f=rbusObject_GetValue(p.o,NULL); CHECK((f!=NULL)==!p.m.props.empty(),"first-value","value of the first property"); if(f) CHECK(ver(f,p.m.props[0].second).empty(),"first-value-content","first property"); break; }
      case 5: { p.m.props.clear(); int n=r.range(0,5); for(int i=0;i<n;i++) p.m.props.push_back({strf("Prop%d",i*3+r.range(0,2)),rmv(r,1)}); rbusProperty_t l=mklist(p.m.props); rbusObject_SetProperties(p.o,l); if(l&&r.chance(20)) rbusObject_SetProperties(p.o,l); if(l) rbusProperty_Release(l); if(r.chance(20)) rbusObject_SetProperties(p.o,rbusObject_GetProperties(p.o)); break; }
      case 6: { p.m.name=r.chance(10)?"":strf("renamed%d",r.range(0,99)); rbusObject_SetName(p.o,p.m.name.c_str()); break; }
      case 7: { MOp c=rmo(r,1); c->name=strf("kid%d",100+s); rbusObject_t x=mkobj(*c); rbusObject_t k0=rbusObject_GetChildren(p.o); if(!k0) rbusObject_SetChildren(p.o,x); else { while(rbusObject_GetNext(k0)) k0=rbusObject_GetNext(k0); rbusObject_SetNext(k0,x);} rbusObject_Release(x); p.m.kids.push_back(c); break; }
      case 8: if(r.chance(40)){ rbusObject_SetChildren(p.o,NULL); p.m.kids.clear(); } else if(p.m.kids.size()>1){ rbusObject_t k0=rbusObject_GetChildren(p.o); rbusObject_SetNext(k0,rbusObject_GetNext(rbusObject_GetNext(k0))); p.m.kids.erase(p.m.kids.begin()+1); } else rbusObject_SetChildren(p.o,rbusObject_GetChildren(p.o)); break;
      case 9: { // through a message
        rbusMessage msg; rbusMessage_Init(&msg); rbusObject_appendToMessage(p.o,msg); uint8_t* b; uint32_t n; rbusMessage_ToBytes(msg,&b,&n); std::vector<uint8_t> cp(b,b+n); rbusMessage m2; rbusMessage_FromBytes(&m2,cp.data(),n); rbusObject_t o2; rbusObject_initFromMessage(&o2,m2); std::string e=verObj(o2,p.m,true); CHECK(e.empty(),"obj-message","%s",e.c_str()); int32_t x; CHECK(rbusMessage_GetInt32(m2,&x)!=RT_OK,"obj-message-rest","bytes left"); rbusObject_Release(o2); rbusMessage_Release(m2); rbusMessage_Release(msg); stat("message_roundtrips"); break; }
      case 10: { // comparison: same content equal, one change unequal, property order irrelevant
        MO c=p.m; for(size_t i=c.props.size();i>1;i--) std::swap(c.props[i-1],c.props[r.below(i)]); rbusObject_t o2=mkobj(c); bool nul=false; (void)nul; CHECK(rbusObject_Compare(p.o,o2,true)==0&&rbusObject_Compare(o2,p.o,true)==0,"obj-cmp-same","objects with the same content compare unequal"); rbusObject_Release(o2);
        MO d=p.m; int how=r.below(4); if(how==0&&!d.props.empty()){ auto& e=d.props[r.below(d.props.size())]; MV nv=mutate(r,e.second); int x=mcmp(nv,e.second); if(x==0||x==UNDEF) break; e.second=nv; } else if(how==1&&!d.props.empty()) d.props.erase(d.props.begin()+r.below(d.props.size())); else if(how==2) d.props.push_back({"Extra",rmv(r,0)}); else d.name+="x";
        o2=mkobj(d); CHECK(rbusObject_Compare(p.o,o2,true)!=0&&rbusObject_Compare(o2,p.o,true)!=0,"obj-cmp-diff","objects that differ (%d) compare equal",how); rbusObject_Release(o2);
        if(!p.m.kids.empty()){ MO f=p.m; f.kids.back()=std::make_shared<MO>(*f.kids.back()); MO* at=f.kids.back().get(); while(!at->kids.empty()&&r.chance(70)){ at->kids.back()=std::make_shared<MO>(*at->kids.back()); at=at->kids.back().get(); stat("comparisons_deep"); } at->props.push_back({"Extra2",rmv(r,0)}); o2=mkobj(f); CHECK(rbusObject_Compare(p.o,o2,true)!=0,"obj-cmp-child","children that differ compare equal"); CHECK(rbusObject_Compare(p.o,o2,false)==0,"obj-cmp-flat","non-recursive comparison looked at children"); rbusObject_Release(o2); } stat("comparisons"); break; }
      case 11: { // typed convenience accessors
        i128 val=(int32_t)r.u(); rbusObject_SetPropertyInt32(p.o,k.c_str(),(int32_t)val); MV nv; nv.type=RBUS_INT32; nv.i=(int64_t)val; if(it==p.m.props.end()) p.m.props.push_back({k,nv}); else it->second=nv; int32_t g=0; CHECK(rbusObject_GetPropertyInt32(p.o,k.c_str(),&g)==RBUS_VALUE_ERROR_SUCCESS&&g==(int32_t)val,"typed-get","int32 property"); uint64_t w=5; CHECK(rbusObject_GetPropertyUInt64(p.o,k.c_str(),&w)==RBUS_VALUE_ERROR_TYPE&&w==5,"typed-get-type","wrong type accepted"); CHECK(rbusObject_GetPropertyInt32(p.o,"no such name",&g)==RBUS_VALUE_ERROR_NOT_FOUND,"typed-get-absent","absent property"); std::string st=rstr(r,300); rbusObject_SetPropertyString(p.o,"Str",st.c_str()); auto q=std::find_if(p.m.props.begin(),p.m.props.end(),[&](std::pair<std::string,MV> const& e){return e.first=="Str";}); MV sv; sv.type=RBUS_STRING; sv.s=st; if(q==p.m.props.end()) p.m.props.push_back({"Str",sv}); else q->second=sv; char const* gs=NULL; int gl; CHECK(rbusObject_GetPropertyString(p.o,"Str",&gs,&gl)==RBUS_VALUE_ERROR_SUCCESS&&st==gs&&gl==(int)st.size(),"typed-string","string property"); break; }
      case 12: { // property list operations
        std::vector<std::pair<std::string,MV>> l; int n=r.chance(4)?r.range(250,520):r.range(1,8); rbusProperty_t first=NULL; for(int i=0;i<n;i++){ MV e=rmv(r,n>8?0:1); std::string nm=strf("L%d",i); rbusValue_t x=mk(e); if(!first) rbusProperty_Init(&first,nm.c_str(),x); else if(r.chance(50)){ rbusProperty_t q; rbusProperty_Init(&q,nm.c_str(),x); rbusProperty_Append(first,q); rbusProperty_Release(q);} else { e=MV(); e.type=RBUS_UINT32; e.i=r.below(1000); rbusProperty_AppendUInt32(first,nm.c_str(),(uint32_t)e.i);} rbusValue_Release(x); l.push_back({nm,e}); if(n<9||i>n-3||r.chance(3)) CHECK(rbusProperty_Count(first)==l.size(),"list-count","count %u of %zu",rbusProperty_Count(first),l.size()); }
        std::string e=verList(first,l,false); CHECK(e.empty(),"list","%s",e.c_str());
        rbusProperty_t mid=first; int j=r.below(n); for(int i=0;i<j;i++) mid=rbusProperty_GetNext(mid); rbusProperty_Retain(mid); rbusProperty_SetName(mid,"renamed"); l[j].first="renamed"; MV nv=rmv(r,0); rbusValue_t x=mk(nv); rbusProperty_SetValue(mid,x); if(r.chance(30)) rbusProperty_SetValue(mid,x); rbusValue_Release(x); if(r.chance(30)) rbusProperty_SetValue(mid,rbusProperty_GetValue(mid)); l[j].second=nv; e=verList(first,l,false); CHECK(e.empty(),"list-edit","%s",e.c_str());
        rbusMessage msg; rbusMessage_Init(&msg); rbusPropertyList_appendToMessage(first,msg); rbusProperty_t in=NULL; rbusPropertyList_initFromMessage(&in,msg); e=verList(in,l,true); CHECK(e.empty(),"list-message","%s",e.c_str()); bool cmp=true; { rbusProperty_t a=first,b=in; while(a&&b){ if(rbusProperty_Compare(a,b)!=0) cmp=false; a=rbusProperty_GetNext(a); b=rbusProperty_GetNext(b);} } bool nb=false; std::function<void(MV const&)> hasNull=[&](MV const& q){ if(q.null) nb=true; if(q.obj){ std::function<void(MO const&)> w=[&](MO const& o){ for(auto& y: o.props) hasNull(y.second); for(auto& y: o.kids) w(*y); }; w(*q.obj);} for(auto& y: q.props) hasNull(y.second); }; for(auto& y: l) hasNull(y.second); if(!nb) CHECK(cmp,"list-cmp","list received in a message compares unequal"); rbusProperty_Release(in); rbusMessage_Release(msg);
        { rbusValue_t x1=mk(l[0].second); rbusProperty_t a,b,c; rbusProperty_Init(&a,l[0].first.c_str(),x1); rbusProperty_Init(&b,NULL,x1); rbusProperty_Init(&c,NULL,x1); int ab=rbusProperty_Compare(a,b),ba=rbusProperty_Compare(b,a); CHECK(ab!=0&&ba!=0&&(ab>0)!=(ba>0),"unnamed-cmp","named against unnamed compares %d, %d",ab,ba); std::function<bool(MV const&)> self=[&](MV const& q){ return mcmp(q,q)==0; }; if(self(l[0].second)) CHECK(rbusProperty_Compare(b,c)==0,"unnamed-cmp","two unnamed properties of the same value compare unequal"); rbusProperty_Release(a); rbusProperty_Release(b); rbusProperty_Release(c); rbusValue_Release(x1); }
        rbusProperty_Release(first); // the tail held by mid survives
        std::vector<std::pair<std::string,MV>> tail(l.begin()+j,l.end()); e=verList(mid,tail,false); CHECK(e.empty(),"list-tail","retained tail changed: %s",e.c_str()); rbusProperty_SetNext(mid,rbusProperty_GetNext(mid)); if(rbusProperty_GetNext(mid)){ rbusProperty_SetNext(mid,rbusProperty_GetNext(rbusProperty_GetNext(mid))); tail.erase(tail.begin()+1);} e=verList(mid,tail,false); CHECK(e.empty(),"list-unlink","%s",e.c_str()); rbusProperty_Release(mid); stat("list_histories"); break; }
    }
    std::string e=verObj(p.o,p.m,false); CHECK(e.empty(),"object","after op %d on %s: %s",op,k.c_str(),e.c_str());
    if(r.chance(20)){ rbusObject_Retain(p.o); rbusObject_Release(p.o); }
    if(r.chance(5)) typed(r);
  }
  for(auto& p: pool){ rbusObject_Release(p.o); }
  std::string().swap(g_case);
}
// ------------------------------------------------------------------- filters
struct MF; typedef std::shared_ptr<MF> MFp; struct MF { int logic; int op; MV v; MFp l,r; };
static MFp rmf(Rng& r,int depth,std::vector<MV> const& vals){ MFp f=std::make_shared<MF>(); f->logic=depth>0&&r.chance(70); if(f->logic){ f->op=r.below(3); f->l=rmf(r,depth-1,vals); if(f->op!=2) f->r=rmf(r,depth-1,vals); } else { f->op=r.below(6); f->v=r.pick(vals); } return f; }
static rbusFilter_t mkf(MF const& f){ rbusFilter_t x; if(f.logic){ rbusFilter_t a=mkf(*f.l),b=f.r?mkf(*f.r):NULL; rbusFilter_InitLogic(&x,(rbusFilter_LogicOperator_t)f.op,a,b); rbusFilter_Release(a); if(b) rbusFilter_Release(b);} else { rbusValue_t v=mk(f.v); rbusFilter_InitRelation(&x,(rbusFilter_RelationOperator_t)f.op,v); rbusValue_Release(v);} return x; }
static int mev(MF const& f, MV const& v) // 0/1, -1 unspecified
{
  if(f.logic){ int a=mev(*f.l,v); if(f.op==2) return a<0?-1:!a; int b=mev(*f.r,v); if(f.op==0) return a==0||b==0?0:(a<0||b<0?-1:1); return a==1||b==1?1:(a<0||b<0?-1:0); }
  int c=mcmp(v,f.v); if(c==UNDEF) return -1; if(c==8) return f.op==4?0:f.op==5?1:-1;
  switch(f.op){ case 0: return c>0; case 1: return c>=0; case 2: return c<0; case 3: return c<=0; case 4: return c==0; default: return c!=0; }
}
static int fnodes(MF const& f){ return 1+(f.l?fnodes(*f.l):0)+(f.r?fnodes(*f.r):0); }
static void caseFilter(Rng& r)
{
  std::vector<MV> vals; MV base=rmv(r,0); while(base.s.size()>3000) base=rmv(r,0); vals.push_back(base); for(int i=0;i<6;i++) vals.push_back(mutate(r,r.pick(vals))); if(r.chance(40)) vals.push_back(rmv(r,0)); if(r.chance(20)) vals.push_back(rmv(r,1)); if(isInt(base.type)){ MV d; d.type=RBUS_DOUBLE; d.d=(double)base.i; vals.push_back(d); }
  std::vector<MV> fv; for(auto& v: vals) if(v.s.size()<60000) fv.push_back(v);
  int depth=r.chance(10)?12:r.range(0,5); MFp m; if(r.chance(3)){ m=rmf(r,0,fv); for(int i=0;i<300;i++){ MFp n=std::make_shared<MF>(); n->logic=1; n->op=r.chance(30)?2:r.below(2); if(n->op!=2&&r.chance(50)){ n->l=rmf(r,0,fv); n->r=m; } else { n->l=m; if(n->op!=2) n->r=rmf(r,0,fv);} m=n; } } else m=rmf(r,depth,fv);
  g_case=strf("filter of %d nodes over %s",fnodes(*m),show(base).c_str()); rbusFilter_t f=mkf(*m);
  // encoded, decoded; sent, received
  bool tlv=true; std::function<void(MF const&)> chk=[&](MF const& x){ if(!x.logic&&(x.v.type==RBUS_OBJECT||x.v.type==RBUS_PROPERTY)) tlv=false; if(x.l) chk(*x.l); if(x.r) chk(*x.r); }; chk(*m);
  rbusFilter_t dec=NULL,rec=NULL;
  if(tlv){ rbusBuffer_t b; rbusBuffer_Create(&b); rbusFilter_Encode(f,b); CHECK(rbusFilter_Decode(&dec,b)==0,"filter-decode","encoded filter not decodable"); CHECK(b->posRead==b->posWrite,"filter-rest","decoder stopped at %d of %d",b->posRead,b->posWrite); rbusBuffer_Destroy(b); }
  rbusMessage msg; rbusMessage_Init(&msg); rbusFilter_AppendToMessage(f,msg); rbusMessage_SetInt32(msg,4242); rbusFilter_InitFromMessage(&rec,msg); int32_t t=0; CHECK(rbusMessage_GetInt32(msg,&t)==RT_OK&&t==4242,"filter-msg-rest","reading a filter from a message leaves the reader elsewhere"); rbusMessage_Release(msg);
  bool hasNull=false; std::function<void(MF const&)> nu=[&](MF const& x){ if(!x.logic&&(x.v.null||x.v.type==RBUS_OBJECT||x.v.type==RBUS_PROPERTY)) hasNull=true; if(x.l) nu(*x.l); if(x.r) nu(*x.r); }; nu(*m);
  CHECK(rbusFilter_Compare(f,f)==0,"filter-cmp-self","a filter differs from itself"); if(!hasNull){ CHECK(rbusFilter_Compare(f,rec)==0&&rbusFilter_Compare(rec,f)==0,"filter-cmp-msg","received filter compares unequal"); if(dec) CHECK(rbusFilter_Compare(f,dec)==0&&rbusFilter_Compare(dec,f)==0,"filter-cmp-dec","decoded filter compares unequal"); }
  int yes=0,no=0;
  for(int i=0;i<30;i++)
  {
    MV v=r.chance(70)?r.pick(vals):mutate(r,r.pick(vals)); rbusValue_t x=mk(v); int want=mev(*m,v); bool got=rbusFilter_Apply(f,x);
    if(want>=0) CHECK(got==(want==1),"filter-apply","filter of %d nodes decides %d on %s, expected %d (root op %d logic %d %s)",fnodes(*m),got,show(v).c_str(),want,m->op,m->logic,m->logic?"":show(m->v).c_str());
    CHECK(hasNull||rbusFilter_Apply(rec,x)==got,"filter-sent","received filter decides differently on %s",show(v).c_str()); if(dec&&!hasNull) CHECK(rbusFilter_Apply(dec,x)==got,"filter-decoded","decoded filter decides differently on %s",show(v).c_str());
    rbusValue_Release(x); stat(want<0?"decisions_unspecified":"decisions"); (got?yes:no)++;
  }
  if(yes&&no) stat("filters_deciding_both_ways");
  // a filter with one change compares unequal
  { MFp c=std::make_shared<MF>(*m); MF* p=c.get(); while(p->logic&&r.chance(70)){ MFp& s=(p->r&&r.chance(50))?p->r:p->l; s=std::make_shared<MF>(*s); p=s.get(); } bool changed=false; if(p->logic){ if(p->op!=2){ p->op=1-p->op; changed=true; } } else { if(r.chance(50)){ p->op=(p->op+1+r.below(5))%6; changed=true; } else { MV nv=mutate(r,p->v); int x=mcmp(nv,p->v); if(x!=0&&x!=UNDEF){ p->v=nv; changed=true; } } } if(changed){ rbusFilter_t g=mkf(*c); CHECK(rbusFilter_Compare(f,g)!=0&&rbusFilter_Compare(g,f)!=0,"filter-cmp-diff","filters that differ compare equal"); rbusFilter_Release(g); stat("comparisons"); } }
  distinct(strf("flt/%d/%x/%d%d",std::min(fnodes(*m),60),base.type,yes>0,no>0));
  FILE* nf=fopen("/dev/null","w"); if(r.chance(20)) rbusFilter_fwrite(f,nf,NULL); fclose(nf);
  rbusFilter_Retain(f); rbusFilter_Release(f); rbusFilter_Release(f); rbusFilter_Release(dec); rbusFilter_Release(rec); std::string().swap(g_case);
}
int main(int argc,char** argv)
{
  std::string mode=argc>4?argv[4]:"value"; void (*body)(Rng&)= mode=="object"?caseObject:mode=="filter"?caseFilter:caseValue;
  sample("mode "+mode);
  return run_cases(argc,argv,[&](Rng& r,long i){ Rng keep=r; body(r); if(i%10==0) leakCycle(keep.u(),body,mode.c_str()); });
}
