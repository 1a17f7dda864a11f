// P03: rbusMessage, rtMessage and frame header, driven against plain C++ models.
#include "u.hpp"
extern "C" {
#include "rbuscore_message.h"
#include "rtMessage.h"
#include "rtMessageHeader.h"
#include "rtError.h"
#include "rtBase64.h"
}
extern "C" { void rbusMessage_BeginMetaSectionWrite(rbusMessage); void rbusMessage_EndMetaSectionWrite(rbusMessage); void rbusMessage_BeginMetaSectionRead(rbusMessage); void rbusMessage_EndMetaSectionRead(rbusMessage); }
#include <cmath>
#include <memory>
static std::string rstr(Rng& r,int maxlen){ int n=r.chance(60)?r.range(0,12):r.chance(80)?r.range(0,300):r.range(0,maxlen); std::string s; for(int i=0;i<n;i++) s+=r.chance(80)?(char)r.range(32,126):(char)r.range(1,255); return s; }
static std::string utf(Rng& r,int maxlen){ int n=r.chance(70)?r.range(0,12):r.range(0,maxlen); std::string s; for(int i=0;i<n;i++){ int k=r.below(20); if(k==0) s+="\xc3\xa9"; else if(k==1) s+="\xe2\x82\xac"; else if(k==2) s+="\xf0\x9f\x98\x80"; else if(k==3) s+=(char)r.range(1,31); else if(k==4) s+=r.chance(50)?"\"":"\\"; else s+=(char)r.range(32,126);} return s; }
static std::string rbytes(Rng& r,int maxlen){ int n=r.chance(60)?r.range(0,12):r.chance(85)?r.range(0,600):r.range(0,maxlen); std::string s; for(int i=0;i<n;i++) s+=(char)r.below(256); return s; }
static double rdouble(Rng& r){ switch(r.below(6)){ case 0: return 0.0; case 1: return -0.0; case 2: return (double)(int64_t)r.u(); case 3: { double d; uint64_t b; do{ b=r.u(); memcpy(&d,&b,8);}while(std::isnan(d)||std::isinf(d)); return d; } case 4: return 1e308*(r.chance(50)?1:-1); default: return r.range(-1000000,1000000)/1000.0; } }
static int32_t ri32(Rng& r){ static const int32_t e[]={0,1,-1,127,128,-128,-129,255,256,32767,32768,-32768,-32769,65535,65536,INT32_MAX,INT32_MIN,INT32_MIN+1}; return r.chance(50)?e[r.below(18)]:(int32_t)r.u(); }
static int64_t ri64(Rng& r){ static const int64_t e[]={0,1,-1,INT32_MAX,(int64_t)INT32_MAX+1,INT32_MIN,(int64_t)INT32_MIN-1,UINT32_MAX,(int64_t)UINT32_MAX+1,INT64_MAX,INT64_MIN}; return r.chance(50)?e[r.below(11)]:(int64_t)r.u(); }
struct Item; typedef std::vector<Item> Items; struct Item { char t; std::string s; int64_t i; double d; Items sub; };
static Items gen(Rng& r,int depth){ Items v; int n=r.chance(5)?0:r.chance(10)?r.range(20,120):r.range(1,15); for(int k=0;k<n;k++){ Item x; x.i=0; x.d=0; switch(r.below(depth>0?7:6)){ case 0: x.t='s'; x.s=rstr(r,70000); break; case 1: x.t='b'; x.s=rbytes(r,70000); break; case 2: x.t='i'; x.i=ri32(r); break; case 3: x.t='u'; x.i=(uint32_t)ri32(r); break; case 4: x.t='l'; x.i=ri64(r); break; case 5: x.t='d'; x.d=rdouble(r); break; default: x.t='m'; x.sub=gen(r,depth-1); } v.push_back(x);} return v; }
static rbusMessage build(Items const& v){ rbusMessage m; rbusMessage_Init(&m); for(auto& x: v) switch(x.t){ case 's': CHECK(rbusMessage_SetString(m,x.s.c_str())==RT_OK,"set","string refused"); break; case 'b': CHECK(rbusMessage_SetBytes(m,(const uint8_t*)x.s.data(),x.s.size())==RT_OK,"set","bytes refused"); break; case 'i': rbusMessage_SetInt32(m,(int32_t)x.i); break; case 'u': rbusMessage_SetInt32(m,(int32_t)(uint32_t)x.i); break; case 'l': rbusMessage_SetInt64(m,x.i); break; case 'd': rbusMessage_SetDouble(m,x.d); break; case 'm': { rbusMessage s=build(x.sub); CHECK(rbusMessage_SetMessage(m,s)==RT_OK,"set","message refused"); rbusMessage_Release(s); } } return m; }
static bool isI(char t){ return t=='i'||t=='u'||t=='l'; }
static int64_t asI(Item const& x){ return x.t=='u'?(int64_t)(int32_t)(uint32_t)x.i:x.i; }
static void readAll(Rng& r, rbusMessage m, Items const& v, int lvl)
{
  int k=0;
  for(auto& x: v)
  {
    g_case=strf("level %d item %d of %zu type %c len %zu i %lld",lvl,k++,v.size(),x.t,x.s.size(),(long long)x.i);
    // a read of another type fails and consumes nothing that later reads depend on: it must not return success
    if(r.chance(0)) {}
    const char* s=NULL; const uint8_t* b=NULL; uint32_t n=0; int32_t i=0; uint32_t u=0; int64_t l=0; double d=0; rbusMessage sub=NULL;
    switch(x.t)
    {
      case 's': CHECK(rbusMessage_GetString(m,&s)==RT_OK&&s&&x.s==s,"string","string read back differs"); break;
      case 'b': CHECK(rbusMessage_GetBytes(m,&b,&n)==RT_OK&&n==x.s.size()&&(n==0||memcmp(b,x.s.data(),n)==0),"bytes","%u bytes read back of %zu",n,x.s.size()); break;
      case 'i': CHECK(rbusMessage_GetInt32(m,&i)==RT_OK&&i==x.i,"int32","%d",i); break;
      case 'u': CHECK(rbusMessage_GetUInt32(m,&u)==RT_OK&&u==(uint32_t)x.i,"uint32","%u",u); break;
      case 'l': CHECK(rbusMessage_GetInt64(m,&l)==RT_OK&&l==x.i,"int64","%lld",(long long)l); break;
      case 'd': CHECK(rbusMessage_GetDouble(m,&d)==RT_OK&&memcmp(&d,&x.d,8)==0,"double","%g instead of %g",d,x.d); break;
      case 'm': CHECK(rbusMessage_GetMessage(m,&sub)==RT_OK&&sub,"message","nested message not read"); readAll(r,sub,x.sub,lvl+1); rbusMessage_Release(sub); break;
    }
    stat("items_read"); distinct(strf("m/%c/%zu/%d",x.t,std::min<size_t>(x.s.size(),64),lvl));
  }
  int32_t i=77; int64_t l=77; double d=7; const char* s; const uint8_t* b; uint32_t n; rbusMessage sub; int w=r.below(6);
  rtError e= w==0?rbusMessage_GetInt32(m,&i): w==1?rbusMessage_GetInt64(m,&l): w==2?rbusMessage_GetDouble(m,&d): w==3?rbusMessage_GetString(m,&s): w==4?rbusMessage_GetBytes(m,&b,&n): rbusMessage_GetMessage(m,&sub);
  CHECK(e!=RT_OK,"past-end","a read past the end of the message succeeded (kind %d)",w);
}
static void wrongTypes(Rng& r, Items const& v)
{
  for(int rep=0;rep<6&&!v.empty();rep++)
  {
    size_t pos=r.below(v.size()); Items pre(v.begin(),v.begin()+pos+1); rbusMessage m=build(pre); Items head(pre.begin(),pre.end()-1); for(auto& x: head){ const char* s; const uint8_t* b; uint32_t n; int64_t l; double d; if(x.t=='s') rbusMessage_GetString(m,&s); else if(x.t=='b'||x.t=='m') rbusMessage_GetBytes(m,&b,&n); else if(isI(x.t)) rbusMessage_GetInt64(m,&l); else rbusMessage_GetDouble(m,&d); }
    Item const& x=v[pos]; int w=r.below(6); g_case=strf("item %zu type %c i %lld read as kind %d",pos,x.t,(long long)x.i,w);
    const char* s=NULL; const uint8_t* b=NULL; uint32_t n=0; int32_t i=0; uint32_t u=0; int64_t l=0; double d=0; rbusMessage sub=NULL; rtError e; bool ok=false;
    switch(w){ case 0: e=rbusMessage_GetString(m,&s); ok=x.t=='s'; break; case 1: e=rbusMessage_GetBytes(m,&b,&n); ok=x.t=='b'||x.t=='m'; break;
      case 2: e=rbusMessage_GetInt32(m,&i); ok=isI(x.t)&&asI(x)>=INT32_MIN&&asI(x)<=INT32_MAX; if(ok) CHECK(i==asI(x),"int-cross","int32 %d instead of %lld",i,(long long)asI(x)); break;
      case 3: e=rbusMessage_GetUInt32(m,&u); ok=isI(x.t)&&asI(x)>=INT32_MIN&&asI(x)<=(int64_t)UINT32_MAX; break;
      case 4: e=rbusMessage_GetInt64(m,&l); ok=isI(x.t); if(ok) CHECK(l==asI(x),"int-cross","int64 %lld instead of %lld",(long long)l,(long long)asI(x)); break;
      default: e=rbusMessage_GetDouble(m,&d); ok=x.t=='d'; break; }
    CHECK((e==RT_OK)==ok,"wrong-type","reading type %c (value %lld) as kind %d gives %d",x.t,(long long)x.i,w,e); (void)sub;
    rbusMessage_Release(m); stat("typed_reads");
  }
}
static void caseMsg(Rng& r)
{
  Items v=gen(r,r.range(0,3)); rbusMessage m=build(v); g_case=strf("%zu items",v.size()); sample(strf("rbusMessage of %zu items",v.size()));
  if(r.chance(30)) rbusMessage_Retain(m),rbusMessage_Release(m);
  readAll(r,m,v,0);
  uint8_t* p; uint32_t n; rbusMessage_ToBytes(m,&p,&n); std::unique_ptr<uint8_t[]> cp(new uint8_t[n]); if(n) memcpy(cp.get(),p,n);
  rbusMessage m2; rbusMessage_FromBytes(&m2,cp.get(),n); cp.reset(); readAll(r,m2,v,0); // the copy stands alone
  uint8_t* p2; uint32_t n2; rbusMessage_ToBytes(m2,&p2,&n2); CHECK(n==n2&&(n==0||memcmp(p,p2,n)==0),"bytes-stable","bytes change on the way"); 
  rbusMessage_Release(m2); stat("byte_roundtrips");
  wrongTypes(r,v);
  // meta section: read before the body, whatever was already read, and the body stays readable
  { Items meta=gen(r,0); rbusMessage q=build(v); rbusMessage_BeginMetaSectionWrite(q); Items all=v; for(auto& x: meta) switch(x.t){ case 's': rbusMessage_SetString(q,x.s.c_str()); break; case 'b': rbusMessage_SetBytes(q,(const uint8_t*)x.s.data(),x.s.size()); break; case 'i': case 'u': rbusMessage_SetInt32(q,(int32_t)(uint32_t)x.i); break; case 'l': rbusMessage_SetInt64(q,x.i); break; case 'd': rbusMessage_SetDouble(q,x.d); break; }
    rbusMessage_EndMetaSectionWrite(q); rbusMessage_ToBytes(q,&p,&n); rbusMessage w; rbusMessage_FromBytes(&w,p,n); rbusMessage_Release(q);
    size_t cut=v.empty()?0:r.below(v.size()+1); size_t k=0; auto rd=[&](Item const& x){ const char* s=NULL; const uint8_t* b=NULL; uint32_t nn=0; int64_t l=0; double d=0; if(x.t=='s') CHECK(rbusMessage_GetString(w,&s)==RT_OK&&x.s==s,"meta-body","string"); else if(x.t=='b') CHECK(rbusMessage_GetBytes(w,&b,&nn)==RT_OK&&nn==x.s.size()&&(!nn||!memcmp(b,x.s.data(),nn)),"meta-body","bytes"); else if(x.t=='m'){ rbusMessage s2; CHECK(rbusMessage_GetMessage(w,&s2)==RT_OK,"meta-body","message"); rbusMessage_Release(s2);} else if(isI(x.t)) CHECK(rbusMessage_GetInt64(w,&l)==RT_OK&&l==asI(x),"meta-body","int %lld",(long long)l); else CHECK(rbusMessage_GetDouble(w,&d)==RT_OK&&!memcmp(&d,&x.d,8),"meta-body","double"); };
    for(;k<cut;k++) rd(v[k]); int times=r.range(1,2); while(times--){ rbusMessage_BeginMetaSectionRead(w); for(auto& x: meta) rd(x); rbusMessage_EndMetaSectionRead(w); } for(;k<v.size();k++) rd(v[k]); rbusMessage_Release(w); stat("meta_sections"); }
  char* t=NULL; uint32_t tn=0; rbusMessage_ToDebugString(m,&t,&tn); CHECK(t&&strlen(t)<=2048,"debug-text","debug text of %zu characters",strlen(t)); free(t); 
  rbusMessage_Release(m);
}
// ------------------------------------------------------------------- JSON messages
struct J; typedef std::shared_ptr<J> Jp; struct J { std::vector<std::pair<std::string,struct F>> f; };
struct F { char t; std::string s; int32_t i; double d; bool b; Jp o; std::vector<std::string> arr; std::vector<Jp> marr; };
static Jp jgen(Rng& r,int depth){ Jp j=std::make_shared<J>(); int n=r.range(0,12); for(int k=0;k<n;k++){ F x; x.i=0; x.d=0; x.b=false; switch(r.below(depth>0?9:6)){ case 0: case 1: x.t='s'; x.s=utf(r,3000); break; case 2: x.t='i'; x.i=ri32(r); break; case 3: x.t='d'; x.d=rdouble(r); break; case 4: x.t='b'; x.b=r.chance(50); break; case 5: x.t='x'; x.s=rbytes(r,1024); if(x.s.size()>1024) x.s.resize(1024); break; case 6: x.t='o'; x.o=jgen(r,depth-1); break; case 7: x.t='a'; { int c=r.range(1,6); while(c--) x.arr.push_back(utf(r,50)); } break; default: x.t='A'; { int c=r.range(1,4); while(c--) x.marr.push_back(jgen(r,depth-1)); } }
    std::string nm=strf("f%d",k); if(r.chance(20)) nm+=utf(r,6); for(auto& c: nm) if(c>='A'&&c<='Z') c=c-'A'+'a'; j->f.push_back({nm,x}); } return j; }
static rtMessage jbuild(J const& j){ rtMessage m; rtMessage_Create(&m); for(auto& e: j.f){ const char* n=e.first.c_str(); F const& x=e.second; switch(x.t){ case 's': rtMessage_SetString(m,n,x.s.c_str()); break; case 'i': rtMessage_SetInt32(m,n,x.i); break; case 'd': rtMessage_SetDouble(m,n,x.d); break; case 'b': rtMessage_SetBool(m,n,x.b); break; case 'x': rtMessage_AddBinaryData(m,n,x.s.data(),x.s.size()); break; case 'o': { rtMessage s=jbuild(*x.o); rtMessage_SetMessage(m,n,s); rtMessage_Release(s); break; } case 'a': for(auto& s: x.arr) rtMessage_AddString(m,n,s.c_str()); break; case 'A': for(auto& s: x.marr){ rtMessage q=jbuild(*s); rtMessage_AddMessage(m,n,q); rtMessage_Release(q);} } } return m; }
static void jver(Rng& r, rtMessage m, J const& j)
{
  for(auto& e: j.f){ const char* n=e.first.c_str(); F const& x=e.second; g_case=strf("field %s type %c %s",n,x.t,hex(x.s.data(),std::min<size_t>(x.s.size(),60)).c_str()); const char* s=NULL; int32_t i=0; double d=0; bool b=false; void* p=NULL; uint32_t len=0;
    switch(x.t){ case 's': { CHECK(rtMessage_GetString(m,n,&s)==RT_OK&&x.s==s,"json-string","string field differs"); int cap=r.chance(40)?(int)x.s.size()+r.range(-1,2):r.range(1,20); if(cap<1) cap=1; std::unique_ptr<char[]> buf(new char[cap]); rtError er=rtMessage_GetStringValue(m,n,buf.get(),cap); CHECK((er==RT_OK)==((int)x.s.size()<cap),"json-stringvalue","string of %zu into a buffer of %d gives %d",x.s.size(),cap,er); if(er==RT_OK) CHECK(x.s==buf.get(),"json-stringvalue-text","copied text differs"); break; }
      case 'i': CHECK(rtMessage_GetInt32(m,n,&i)==RT_OK&&i==x.i,"json-int","%d instead of %d",i,x.i); break; case 'd': CHECK(rtMessage_GetDouble(m,n,&d)==RT_OK&&(d==x.d||std::fabs(d-x.d)<=std::fabs(x.d)*2.3e-16),"json-double","%.17g instead of %.17g",d,x.d); break; case 'b': CHECK(rtMessage_GetBool(m,n,&b)==RT_OK&&b==x.b,"json-bool","bool differs"); break;
      case 'x': CHECK(rtMessage_GetBinaryData(m,n,&p,&len)==RT_OK&&len==x.s.size()&&(!len||!memcmp(p,x.s.data(),len)),"json-binary","%u of %zu bytes",len,x.s.size()); free(p); break;
      case 'o': { rtMessage q=NULL; CHECK(rtMessage_GetMessage(m,n,&q)==RT_OK&&q,"json-message","nested message missing"); jver(r,q,*x.o); rtMessage_Release(q); break; }
      case 'a': CHECK(rtMessage_GetArrayLength(m,n,&i)==RT_OK&&i==(int)x.arr.size(),"json-array","length %d of %zu",i,x.arr.size()); for(size_t k=0;k<x.arr.size();k++) CHECK(rtMessage_GetStringItem(m,n,k,&s)==RT_OK&&x.arr[k]==s,"json-array-item","item %zu",k); CHECK(rtMessage_GetStringItem(m,n,x.arr.size(),&s)!=RT_OK&&rtMessage_GetStringItem(m,n,-1,&s)!=RT_OK,"json-array-end","item out of range returned"); break;
      case 'A': CHECK(rtMessage_GetArrayLength(m,n,&i)==RT_OK&&i==(int)x.marr.size(),"json-array","length"); for(size_t k=0;k<x.marr.size();k++){ rtMessage q=NULL; CHECK(rtMessage_GetMessageItem(m,n,k,&q)==RT_OK&&q,"json-marray-item","item %zu",k); jver(r,q,*x.marr[k]); rtMessage_Release(q);} break; }
    if(x.t!='s'&&x.t!='x') CHECK(rtMessage_GetString(m,n,&s)!=RT_OK,"json-wrong-type","field of type %c read as a string",x.t); if(x.t!='i'&&x.t!='d') CHECK(rtMessage_GetInt32(m,n,&i)!=RT_OK&&rtMessage_GetDouble(m,n,&d)!=RT_OK,"json-wrong-type","field of type %c read as a number",x.t);
    stat("json_fields"); distinct(strf("j/%c/%zu",x.t,std::min<size_t>(x.s.size()+x.arr.size()*7,40))); }
  const char* s; int32_t i; CHECK(rtMessage_GetString(m,"absent",&s)!=RT_OK&&rtMessage_GetInt32(m,"absent",&i)!=RT_OK,"json-absent","absent field found");
}
static void caseJson(Rng& r)
{
  Jp j=jgen(r,r.range(0,3)); rtMessage m=jbuild(*j); jver(r,m,*j); sample(strf("rtMessage of %zu fields",j->f.size()));
  uint8_t* p=NULL; uint32_t n=0; if(r.chance(50)) rtMessage_ToByteArray(m,&p,&n); else rtMessage_ToByteArrayWithSize(m,&p,r.range(1,5000),&n);
  std::unique_ptr<uint8_t[]> cp(new uint8_t[n]); if(n) memcpy(cp.get(),p,n); rtMessage_FreeByteArray(p); // exactly n bytes, nothing after them
  rtMessage m2=NULL; CHECK(rtMessage_FromBytes(&m2,cp.get(),n)==RT_OK,"json-parse","serialised message not parseable"); cp.reset(); jver(r,m2,*j); stat("json_roundtrips");
  rtMessage c=NULL; rtMessage_Clone(m2,&c); rtMessage_SetString(m2,"later","added"); const char* s; CHECK(rtMessage_GetString(c,"later",&s)!=RT_OK,"json-clone","a clone changes with its source"); rtMessage_Retain(c); rtMessage_Release(m2); jver(r,c,*j); rtMessage_Release(c); jver(r,c,*j); 
  std::string tp=utf(r,100); rtMessage_SetSendTopic(c,"first"); rtMessage_SetSendTopic(c,tp.c_str()); char tb[4096]; CHECK(rtMessage_GetSendTopic(c,tb)==RT_OK&&tp==tb,"json-topic","send topic differs"); rtMessage_Release(c); rtMessage_Release(m);
  for(int k=0;k<5;k++){ std::string b=rbytes(r,3000); void* e=NULL; unsigned en=0; if(!b.empty()&&rtBase64_encode(b.data(),b.size(),(void**)&e,&en)==RT_OK){ void* d=NULL; unsigned dn=0; CHECK(rtBase64_decode((unsigned char*)e,strlen((char*)e),&d,&dn)==RT_OK&&dn==b.size()&&!memcmp(d,b.data(),dn),"base64","%u of %zu bytes",dn,b.size()); free(d); free(e); stat("base64"); } }
}
// ------------------------------------------------------------------- frame header
static void caseHdr(Rng& r)
{
  for(int k=0;k<20;k++)
  {
    rtMessageHeader h; rtMessageHeader_Init(&h); h.sequence_number=(uint32_t)r.u(); h.flags=r.below(64); h.control_data=(uint32_t)r.u(); h.payload_length=r.chance(50)?r.below(70000):(uint32_t)r.u();
    auto top=[&](char* t){ int n=r.chance(20)?0:r.chance(20)?RTMSG_HEADER_MAX_TOPIC_LENGTH-1:r.range(0,RTMSG_HEADER_MAX_TOPIC_LENGTH-1); for(int i=0;i<n;i++) t[i]=(char)r.range(1,255); t[n]=0; return n; };
    h.topic_length=top(h.topic); h.reply_topic_length=top(h.reply_topic); g_case=strf("topic %u reply %u",h.topic_length,h.reply_topic_length);
    std::unique_ptr<uint8_t[]> buf(new uint8_t[RTMESSAGEHEADER_MAX_LENGTH]); CHECK(rtMessageHeader_Encode(&h,buf.get())==RT_OK,"hdr-encode","encode failed"); CHECK(h.header_length==RTMESSAGEHEADER_SIZE_WITHOUT_STRINGS+h.topic_length+h.reply_topic_length,"hdr-length","header length %u",h.header_length);
    std::unique_ptr<uint8_t[]> ex(new uint8_t[h.header_length]); memcpy(ex.get(),buf.get(),h.header_length);
    CHECK(ex[0]==0xAA&&ex[1]==0xAA&&((ex[4]<<8)|ex[5])==h.header_length,"hdr-preamble","preamble does not carry marker and length");
    rtMessageHeader g; rtMessageHeader_Init(&g); memset(g.topic,'z',sizeof g.topic); memset(g.reply_topic,'z',sizeof g.reply_topic); CHECK(rtMessageHeader_Decode(&g,ex.get())==RT_OK,"hdr-decode","decode failed");
    CHECK(g.version==h.version&&g.header_length==h.header_length&&g.sequence_number==h.sequence_number&&g.flags==h.flags&&g.control_data==h.control_data&&g.payload_length==h.payload_length&&g.topic_length==h.topic_length&&g.reply_topic_length==h.reply_topic_length&&!strcmp(g.topic,h.topic)&&!strcmp(g.reply_topic,h.reply_topic),"hdr-roundtrip","header fields differ: seq %u/%u flags %x/%x ctl %u/%u payload %u/%u topic '%s'/'%s'",g.sequence_number,h.sequence_number,g.flags,h.flags,g.control_data,h.control_data,g.payload_length,h.payload_length,g.topic,h.topic);
    CHECK(rtMessageHeader_IsRequest(&g)==((h.flags&rtMessageFlags_Request)!=0),"hdr-flags","request flag"); stat("headers"); distinct(strf("h/%u/%u/%u",h.topic_length/8,h.reply_topic_length/8,h.flags));
  }
}
int main(int argc,char** argv)
{
  std::string mode=argc>4?argv[4]:"msg";
  return run_cases(argc,argv,[&](Rng& r,long i){ Rng keep=r; auto body=mode=="json"?caseJson:mode=="hdr"?caseHdr:caseMsg; body(r);
    if(i%10==0){ uint64_t s=keep.u(); auto run=[&]{ Rng q(s); body(q); }; run(); run(); size_t a=heap_bytes(); for(int k=0;k<5;k++) run(); std::string().swap(g_case); size_t b=heap_bytes(); CHECK(b<=a+256,"leak","repeating the same operations leaves %zd bytes",(ssize_t)(b-a)); stat("leak_cycles"); } });
}
