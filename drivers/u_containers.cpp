// P25: containers against abstract models; clean-up exactly once; base64; time arithmetic; retain/release under threads.
#include "u.hpp"
#include <pthread.h>
extern "C" {
#include "rtVector.h"
#include "rtList.h"
#include "rtHashMap.h"
#include "rtBase64.h"
#include "rtTime.h"
#include "rtLog.h"
void rtLog_SetLevel(rtLogLevel l);
}
struct Item { int id; char key[24]; };
static std::map<void*,int> live;     // items handed to containers -> times cleaned
static int cleaned;
static Item* mk(int id, const char* k){ Item* x=(Item*)malloc(sizeof *x); x->id=id; snprintf(x->key,sizeof x->key,"%s",k); live[x]=0; return x; }
static void clean(void* p){ if(!p) return; auto it=live.find(p); if(it==live.end()) mismatch("cleanup-unknown","clean-up called for an element the container does not hold"); live.erase(it); cleaned++; free(p); }
static int cmp(const void* l, const void* r){ return strcmp(((const Item*)l)->key,(const char*)r); }

static void vec(Rng& r)
{
  rtVector v; rtVector_Create(&v); std::vector<Item*> m; int id=0; int n=r.chance(10)?400:60;
  bool own=r.chance(70);
  for(int i=0;i<n;i++)
  {
    int op=r.below(10); std::string k=strf("k%d",r.range(0,r.chance(50)?6:300));
    g_case=strf("vec step %d op %d size %zu",i,op,m.size());
    if(op<5){ Item* x=mk(id++,k.c_str()); CHECK(rtVector_PushBack(v,x)==RT_OK,"vec-push","push failed"); m.push_back(x); }
    else if(op==5 && !m.empty()){ size_t j=r.below(m.size()); Item* x=m[j]; int c0=cleaned; CHECK(rtVector_RemoveItem(v,x,own?clean:NULL)==RT_OK,"vec-remove","remove failed");
      if(own) CHECK(cleaned==c0+1,"vec-clean","clean-up ran %d times",cleaned-c0); else { CHECK(cleaned==c0,"vec-clean","clean-up ran"); live.erase(x); free(x);} m.erase(m.begin()+j); }
    else if(op==6){ auto it=std::find_if(m.begin(),m.end(),[&](Item* x){return k==x->key;}); int rc=rtVector_RemoveItemByCompare(v,k.c_str(),cmp,own?clean:NULL);
      CHECK((rc==RT_OK)==(it!=m.end()),"vec-removecmp","rc %d present %d",rc,it!=m.end()); if(it!=m.end()){ if(!own){ live.erase(*it); free(*it);} m.erase(it);} }
    else if(op==7){ Item dummy; CHECK(rtVector_RemoveItem(v,&dummy,clean)!=RT_OK,"vec-remove-absent","removing an absent item succeeded"); }
    else if(op==8){ auto it=std::find_if(m.begin(),m.end(),[&](Item* x){return k==x->key;}); Item* f=(Item*)rtVector_Find(v,k.c_str(),cmp); CHECK(f==(it==m.end()?NULL:*it),"vec-find","find by comparison");
      CHECK((rtVector_HasItem(v,k.c_str(),cmp)!=0)==(it!=m.end()),"vec-has","has by comparison"); if(!m.empty()){ Item* x=m[r.below(m.size())]; CHECK(rtVector_Find(v,x,NULL)==x,"vec-find-ptr","find by identity"); } }
    CHECK(rtVector_Size(v)==m.size(),"vec-size","size %zu, model %zu",rtVector_Size(v),m.size());
    for(size_t j=0;j<m.size();j++) CHECK(rtVector_At(v,j)==m[j],"vec-order","element %zu differs",j);
    CHECK(rtVector_At(v,m.size())==NULL && rtVector_At(v,m.size()+r.below(50))==NULL,"vec-at-end","At beyond the end is not NULL");
    distinct(strf("vec/%d/%zu/%d",op,std::min<size_t>(m.size(),70),own));
  }
  int c0=cleaned; size_t sz=m.size(); g_case="vec destroy"; rtVector_Destroy(v,clean); CHECK((size_t)(cleaned-c0)==sz && live.empty(),"vec-destroy","clean-up ran %d times for %zu elements",cleaned-c0,sz);
}
static void check_list(rtList l, std::list<Item*>& m)
{
  size_t sz=0; rtList_GetSize(l,&sz); CHECK(sz==m.size(),"list-size","size %zu model %zu",sz,m.size());
  rtListItem it; rtList_GetFront(l,&it); size_t n=0; rtListItem last=NULL;
  for(Item* x: m){ CHECK(it!=NULL,"list-short","list ends at %zu of %zu",n,m.size()); void* d; rtListItem_GetData(it,&d); CHECK(d==x,"list-order","element %zu differs",n); rtListItem pv; rtListItem_GetPrev(it,&pv); CHECK(pv==last,"list-prev","prev of %zu wrong",n); last=it; rtListItem_GetNext(it,&it); n++; }
  CHECK(it==NULL,"list-long","list longer than model"); rtListItem b; rtList_GetBack(l,&b); CHECK(b==last,"list-back","back wrong");
}
static rtListItem nth(rtList l, size_t j){ rtListItem it; rtList_GetFront(l,&it); while(j--) rtListItem_GetNext(it,&it); return it; }
static void lst(Rng& r)
{
  rtList l; rtList_Create(&l); std::list<Item*> m; int id=0; int n=r.chance(10)?300:60; bool reuse=r.chance(30);
  std::set<Item*> spare;   // in reuse mode the list keeps the data of removed items
  for(int i=0;i<n;i++)
  {
    int op=r.below(11); std::string k=strf("k%d",r.range(0,r.chance(50)?6:300)); g_case=strf("list step %d op %d size %zu reuse %d",i,op,m.size(),reuse);
    if(op<5)
    {
      rtListItem li=NULL; size_t j=m.empty()?0:r.below(m.size()); rtListItem at=m.empty()?NULL:nth(l,j); Item* x=reuse?NULL:mk(id++,k.c_str()); void* d=reuse?rtListReuseData:(void*)x; int w=op;
      if(m.empty()&&op>=2) w=op&1;
      rtError rc=w==0||w==4&&m.empty()?rtList_PushFront(l,d,&li):w==1?rtList_PushBack(l,d,&li):w==2?rtList_InsertBefore(l,d,at,&li):w==3?rtList_InsertAfter(l,d,at,&li):rtList_PushBack(l,d,&li);
      CHECK(rc==RT_OK && li,"list-insert","insert failed");
      if(reuse){ void* g; rtListItem_GetData(li,&g); if(g){ CHECK(spare.count((Item*)g)==1,"list-reuse","recycled item carries foreign data"); spare.erase((Item*)g); x=(Item*)g; } else { x=mk(id++,k.c_str()); rtListItem_SetData(li,x);} snprintf(x->key,sizeof x->key,"%s",k.c_str()); }
      auto p=m.begin(); std::advance(p,j); if(w==0||(w==4&&m.empty())) m.push_front(x); else if(w==1||w==4) m.push_back(x); else if(w==2) m.insert(p,x); else m.insert(std::next(p),x);
    }
    else if(op<=6 && !m.empty()){ size_t j=r.below(m.size()); rtListItem at=nth(l,j); auto p=m.begin(); std::advance(p,j); Item* x=*p; int c0=cleaned; rtError rc=op==5?rtList_RemoveItem(l,at,reuse?NULL:clean):rtList_RemoveItemWithData(l,x,reuse?NULL:clean);
      CHECK(rc==RT_OK,"list-remove","remove failed"); CHECK(cleaned-c0==(reuse?0:1),"list-clean","clean-up ran %d times",cleaned-c0); if(reuse) spare.insert(x); m.erase(p); }
    else if(op==7){ auto p=std::find_if(m.begin(),m.end(),[&](Item* x){return k==x->key;}); rtError rc=rtList_RemoveItemByCompare(l,k.c_str(),cmp,reuse?NULL:clean); CHECK((rc==RT_OK)==(p!=m.end()),"list-removecmp","rc %d present %d",rc,p!=m.end()); if(p!=m.end()){ if(reuse) spare.insert(*p); m.erase(p);} }
    else if(op==8){ Item dummy; CHECK(rtList_RemoveItemWithData(l,&dummy,NULL)!=RT_OK,"list-remove-absent","removing absent data succeeded"); }
    else if(op==9){ auto p=std::find_if(m.begin(),m.end(),[&](Item* x){return k==x->key;}); CHECK(rtList_Find(l,k.c_str(),cmp)==(p==m.end()?NULL:(void*)*p),"list-find","find"); CHECK((rtList_HasItem(l,k.c_str(),cmp)!=0)==(p!=m.end()),"list-has","has"); }
    else if(op==10 && r.chance(15)){ int c0=cleaned; size_t s=m.size(); rtList_RemoveAllItems(l,reuse?NULL:clean); CHECK((size_t)(cleaned-c0)==(reuse?0:s),"list-removeall","clean-up ran %d times for %zu",cleaned-c0,s); if(reuse) for(Item* x: m) spare.insert(x); m.clear(); }
    check_list(l,m); distinct(strf("list/%d/%zu/%d",op,std::min<size_t>(m.size(),60),reuse));
  }
  int c0=cleaned; size_t want=live.size(); g_case="list destroy"; rtList_Destroy(l,clean); CHECK((size_t)(cleaned-c0)==want && live.empty(),"list-destroy","clean-up ran %d times for %zu elements",cleaned-c0,want);
}
static int nkey, nval;
static const void* ccopy(const void* p){ nval++; return strdup((const char*)p); }
static void cfree(void* p){ nval--; free(p); }
static const void* kcopy(const void* p){ nkey++; return strdup((const char*)p); }
static void kfree(void* p){ nkey--; free(p); }
static uint32_t badhash(rtHashMap, const void* k){ return ((const char*)k)[0]&3; }
static void hmap(Rng& r)
{
  rtHashMap h; int mode=r.below(3); nkey=nval=0; static int vals[4000]; std::map<std::string,std::string> m; std::map<std::string,int*> mp;
  if(mode==0) rtHashMap_Create(&h); else rtHashMap_CreateEx(&h,r.chance(50)?0:0.25f+r.below(20)*0.25f,mode==2?badhash:NULL,NULL,kcopy,kfree,ccopy,cfree);
  int n=r.chance(15)?900:100, space=r.chance(50)?12:500;
  for(int i=0;i<n;i++)
  {
    int op=r.below(10); std::string k=r.chance(90)?strf("key%d",r.below(space)):std::string(1+r.below(60),(char)(200+r.below(50)))+strf("%d",r.below(space)); 
    bool grow = (i/100)%2==0;   // phases of growth and shrinkage so the table is resized both ways
    g_case=strf("map step %d op %d size %zu mode %d",i,op,mode?m.size():mp.size(),mode);
    if(op<(grow?6:2)){ if(mode==0){ int* v=&vals[r.below(4000)]; rtHashMap_Set(h,k.c_str(),v); mp[k]=v; } else { std::string v=strf("v%d",i); rtHashMap_Set(h,k.c_str(),v.c_str()); m[k]=v; } }
    else if(op<8){ bool had=mode?m.count(k):mp.count(k); int rc=rtHashMap_Remove(h,k.c_str()); CHECK((rc!=0)==had,"map-remove","remove returned %d, present %d",rc,had); m.erase(k); mp.erase(k); }
    else { if(mode){ char* g=(char*)rtHashMap_Get(h,k.c_str()); CHECK(m.count(k)?(g&&m[k]==g):g==NULL,"map-get","get %s",k.c_str()); CHECK((rtHashMap_Contains(h,k.c_str())!=0)==(m.count(k)!=0),"map-contains","contains"); }
      else { void* g=rtHashMap_Get(h,k.c_str()); CHECK(g==(mp.count(k)?(void*)mp[k]:NULL),"map-get","get %s",k.c_str()); CHECK((rtHashMap_Contains(h,k.c_str())!=0)==(mp.count(k)!=0),"map-contains","contains"); } }
    CHECK(rtHashMap_GetSize(h)==(mode?m.size():mp.size()),"map-size","size %zu",rtHashMap_GetSize(h));
    if(mode) CHECK(nkey==(int)m.size()&&nval==(int)m.size(),"map-owned","%d keys and %d values held for %zu entries",nkey,nval,m.size());
    if(i%37==0) { for(auto& e: m){ char* g=(char*)rtHashMap_Get(h,e.first.c_str()); CHECK(g&&e.second==g,"map-get-all","lost %s",e.first.c_str()); } for(auto& e: mp) CHECK(rtHashMap_Get(h,e.first.c_str())==e.second,"map-get-all","lost %s",e.first.c_str()); }
    distinct(strf("map/%d/%zu/%d",op,(mode?m.size():mp.size())/4,mode));
  }
  g_case="map destroy"; rtHashMap_Destroy(h); if(mode) CHECK(nkey==0&&nval==0,"map-destroy","%d keys %d values left",nkey,nval);
}
static const char* B64="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void b64(Rng& r, long c)
{
  unsigned n=c<1040?(unsigned)c:r.below(1100); std::vector<uint8_t> d(n); for(auto& x: d) x=(uint8_t)r.u();
  g_case=strf("base64 length %u",n); unsigned char* e=NULL; unsigned es=0; uint8_t* in=(uint8_t*)malloc(n); if(n) memcpy(in,d.data(),n);
  if(n>RBUS_BINARY_DATA_SIZE_LIMIT){ CHECK(rtBase64_encode(in,n,&e,&es)!=RT_OK,"b64-limit","encode of %u bytes accepted",n); free(in); return; }
  CHECK(rtBase64_encode(in,n,&e,&es)==RT_OK && e,"b64-encode","encode failed"); free(in);
  std::string ref; for(unsigned i=0;i<n;i+=3){ uint32_t v=d[i]<<16|(i+1<n?d[i+1]<<8:0)|(i+2<n?d[i+2]:0); ref+=B64[v>>18]; ref+=B64[v>>12&63]; ref+=i+1<n?B64[v>>6&63]:'='; ref+=i+2<n?B64[v&63]:'='; }
  CHECK(ref==(char*)e,"b64-text","encoded text differs: %s / %s",e,ref.c_str());
  void* o=NULL; unsigned os=0; if(n){ unsigned char* t=(unsigned char*)malloc(ref.size()); memcpy(t,ref.data(),ref.size()); CHECK(rtBase64_decode(t,ref.size(),&o,&os)==RT_OK,"b64-decode","decode failed"); free(t); CHECK(os==n && !memcmp(o,d.data(),n),"b64-roundtrip","decoded bytes differ (%u of %u)",os,n); free(o); }
  free(e); distinct(strf("b64/%u",n));
}
static void tim(Rng& r)
{
  rtTime_t a={(time_t)r.below(100000000),(long)r.below(1000000000)}; unsigned ms=r.chance(30)?r.below(3000):r.below(2000000000); rtTime_t b; rtTime_Later(&a,ms,&b);
  g_case=strf("time %ld.%09ld + %u ms",(long)a.tv_sec,a.tv_nsec,ms);
  __int128 na=(__int128)a.tv_sec*1000000000+a.tv_nsec, nb=(__int128)b.tv_sec*1000000000+b.tv_nsec; CHECK(nb-na==(__int128)ms*1000000 && b.tv_nsec>=0 && b.tv_nsec<1000000000,"time-later","later is wrong: %ld.%09ld",(long)b.tv_sec,b.tv_nsec);
  CHECK(rtTime_Elapsed(&a,&b)==(int)ms,"time-elapsed","elapsed %d",rtTime_Elapsed(&a,&b));
  rtTime_t c={a.tv_sec+r.range(-1,1),(long)r.below(1000000000)}; if(r.chance(20)) c=a; __int128 nc=(__int128)c.tv_sec*1000000000+c.tv_nsec; int want=na<nc?-1:na>nc?1:0; CHECK(rtTime_Compare(&a,&c)==want && rtTime_Compare(&c,&a)==-want,"time-compare","compare %d want %d",rtTime_Compare(&a,&c),want);
  if(nc>=na) CHECK(rtTime_Elapsed(&a,&c)==(int)((nc-na)/1000000),"time-elapsed2","elapsed %d",rtTime_Elapsed(&a,&c));
  distinct(strf("time/%d/%d",want,(int)(b.tv_nsec<a.tv_nsec)));
}
static int quiet(void){return 0;}
int main(int argc,char** argv)
{
  rtLog_SetLevel(RT_LOG_FATAL);
  return run_cases(argc,argv,[](Rng& r,long i){ size_t h0=heap_bytes(); vec(r); lst(r); hmap(r); for(int k=0;k<4;k++) b64(r,i*4+k); for(int k=0;k<50;k++) tim(r); if(i>3) CHECK(live.empty(),"leak","elements left"); if(i<2) sample(g_case); });
}
