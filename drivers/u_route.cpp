// P06: the broker's routing tree against a flat table of (name, owner) pairs.
#include "u.hpp"
extern "C" {
#include "rtRoutingTree.h"
#include "rtList.h"
#include "rtLog.h"
#include "rtRoutingTree.c"
void rtLog_SetLevel(rtLogLevel l);
}
typedef std::vector<std::string> Path;
static Path split(std::string const& s){ Path p; std::string t; for(size_t i=0;i<s.size();i++){ if(s[i]=='.'){ p.push_back(t); t.clear(); } else t+=s[i]; } if(!t.empty()) p.push_back(t); return p; }
static std::string joinp(Path const& p){ std::string r; for(size_t i=0;i<p.size();i++){ if(i) r+='.'; r+=p[i]; } return r; }
static bool validname(std::string const& s){ return s.size()<512 && std::count(s.begin(),s.end(),'.')<32 && s.find("..")==std::string::npos; }
static bool toomany(std::string const& s){ return s.size()>=512 || split(s).size()>32; }
struct Model
{
  std::map<Path,std::vector<int>> own;     // registered name -> owners, in order
  // every name that is registered or lies above a registered one
  bool exists(Path const& p) const { for(auto& o: own) if(o.first.size()>=p.size() && std::equal(p.begin(),p.end(),o.first.begin())) return true; return false; }
  bool child(Path const& up, std::string const& t) const { Path q=up; q.push_back(t); return exists(q); }
  bool anychild(Path const& p) const { for(auto& o: own) if(o.first.size()>p.size() && std::equal(p.begin(),p.end(),o.first.begin())) return true; return false; }
  // the place in the tree a name addresses, or false
  bool resolve(Path const& p, Path& out) const
  {
    out.clear();
    for(auto& t: p)
    {
      if(child(out,t)) out.push_back(t);
      else if(!t.empty() && (isdigit((unsigned char)t[0])||t[0]=='['||t[0]=='*') && child(out,"{i}")) out.push_back("{i}");
      else return false;
    }
    return true;
  }
  // 0 ok, 1 duplicate, 2 refused for the place, 3 invalid
  int add(std::string const& s, int who, bool nodup)
  {
    if(!validname(s)) return 3;
    Path p=split(s); if(p.empty()) return 0;
    Path at;
    for(auto& t: p)
    {
      if(child(at,t)){ at.push_back(t); continue; }
      if(child(at,"{i}")){ if(isdigit((unsigned char)t[0])||t[0]=='['||t[0]=='*'){ at.push_back("{i}"); continue; } return 2; }
      if(t[0]=='{' && anychild(at)) return 2;
      at.push_back(t);
    }
    std::vector<int>& o=own[at];
    if(nodup && !o.empty() && s!="_RTROUTED.ADVISORY") return 1;
    if(std::find(o.begin(),o.end(),who)==o.end()) o.push_back(who);
    return 0;
  }
  void remove(std::string const& s, int who)
  {
    Path p=split(s); auto it=own.find(p); if(toomany(s)||it==own.end()) return;
    auto j=std::find(it->second.begin(),it->second.end(),who); if(j==it->second.end()) return;
    it->second.erase(j); if(it->second.empty()) own.erase(it);
  }
  void removeAll(int who){ for(auto it=own.begin();it!=own.end();){ auto& v=it->second; v.erase(std::remove(v.begin(),v.end(),who),v.end()); if(v.empty()) it=own.erase(it); else ++it; } }
  std::set<int> below(Path const& at) const { std::set<int> r; for(auto& o: own) if(o.first.size()>at.size() && std::equal(at.begin(),at.end(),o.first.begin())) r.insert(o.second.begin(),o.second.end()); return r; }
  std::set<int> lookup(std::string const& s) const
  {
    std::set<int> r; if(toomany(s)) return r; Path p=split(s), at; if(p.empty()||!resolve(p,at)) return r;
    if(s.back()=='.') return below(at);
    Path q=at; q.push_back("{i}"); if(exists(q)) at=q;
    auto it=own.find(at); if(it!=own.end()) r.insert(it->second.begin(),it->second.end());
    return r;
  }
  std::set<int> partial(std::string const& s) const { std::set<int> r; if(toomany(s)) return r; Path p=split(s), at; if(p.empty()||!resolve(p,at)) return r; return below(at); }
  std::multiset<std::string> topics(int who) const { std::multiset<std::string> r; for(auto& o: own) if(std::find(o.second.begin(),o.second.end(),who)!=o.second.end()) r.insert(joinp(o.first)); return r; }
};
static std::string show(std::set<int> const& s){ std::string r="{"; for(int i: s) r+=strf("%d ",i); return r+"}"; }
static std::set<int> real_lookup(rtRoutingTree rt, std::string const& s, char* owners, size_t& n)
{
  rtList l=NULL; std::set<int> r; n=0; rtRoutingTree_GetTopicRoutes(rt,s.c_str(),&l); rtListItem it=NULL; if(l) rtList_GetFront(l,&it);
  while(it){ rtTreeRoute* t; rtListItem_GetData(it,(void**)&t); r.insert((int)((char*)t->route-owners)); n++; rtListItem_GetNext(it,&it); }
  return r;
}
static const char* WORDS[]={"Device","A","B","C","WiFi","AccessPoint","X_RDK","Enable","x","AA","Ab","Status","AccessPoints","Acces","a-b","_c","__","B2"};
static std::string word(Rng& r, int wide){ int n=(int)(sizeof(WORDS)/sizeof*WORDS); return WORDS[r.below(wide>n?n:wide)]; }
static void tree(Rng& r, long)
{
  static char owners[64]; rtRoutingTree rt; rtRoutingTree_Create(&rt); Model m; int no=r.pick(std::vector<int>{1,2,3,8,30}); int steps=r.chance(8)?260:r.range(10,70); int wide=r.pick(std::vector<int>{2,3,5,12}); int depth=r.pick(std::vector<int>{2,3,5,9}); bool nodup_only=r.chance(60);
  std::vector<std::string> pool;
  auto fresh=[&](){
    Path p; int d=r.range(1,depth); bool lasttab=true;
    for(int i=0;i<d;i++){ if(!lasttab && r.chance(25)){ p.push_back("{i}"); lasttab=true; } else { p.push_back(word(r,wide)); lasttab=false; } }
    std::string s=joinp(p);
    int k=r.below(60);
    if(k==0){ s.clear(); int n=r.pick(std::vector<int>{31,32,33,34,40,100}); for(int i=0;i<n;i++){ if(i) s+='.'; s+="t"; } }
    else if(k==1){ int n=r.pick(std::vector<int>{500,510,511,512,513,600,2000}); s="L"; while((int)s.size()<n) s+= (s.size()%60==59)?'.':'q'; if(s.back()=='.') s.back()='q'; }
    else if(k==2) s+="..x"; else if(k==3) s="."+s; else if(k==4) s+="."; else if(k==5) s="_RTROUTED.ADVISORY"; else if(k==6) s="";
    return s; };
  // the names a component may add: no table's own name beside its instances' pattern (see DESIGN)
  auto addable=[&](std::string const& s){ Path p=split(s); if(p.empty()) return true; for(auto& t: p) if(t.empty() ) return true;
    Path q=p; q.push_back("{i}"); if(m.exists(q)) return false;
    if(p.back()=="{i}"){ Path u(p.begin(),p.end()-1); if(m.own.count(u)) return false; }
    for(size_t i=1;i<p.size();i++) if(p[i]=="{i}" && m.own.count(Path(p.begin(),p.begin()+i))) return false;
    return true; };
  auto asked=[&](std::string s){ Path p=split(s); bool dot=!s.empty()&&s.back()=='.'; for(auto& t: p) if(t=="{i}" && r.chance(70)) t=r.pick(std::vector<std::string>{"1","2","10","4294967295","[al]","[a-b]","*","0","7x"}); s=joinp(p); if(dot) s+="."; 
    int k=r.below(14); if(k==0){ if(p.size()>1) p.pop_back(); s=joinp(p); } else if(k==1) s+="."; else if(k==2){ if(p.size()>1) p.pop_back(); s=joinp(p)+"."; } else if(k==3) s+="."+word(r,wide); else if(k==4) s+="x"; else if(k==5&&s.size()>1) s.pop_back(); else if(k==6) s="."+s; else if(k==7) s+=".1"; else if(k==8) s+=".*."; else if(k==9) s+="..";
    return s; };
  auto probe=[&](std::string const& s){
    size_t n; std::set<int> got=real_lookup(rt,s,owners,n), want=m.lookup(s);
    CHECK(got==want,"lookup","'%s' is routed to %s, owned by %s",s.substr(0,600).c_str(),show(got).c_str(),show(want).c_str());
    CHECK(n==got.size(),"lookup-twice","'%s' names an owner twice",s.substr(0,600).c_str()); stat("lookups"); if(!want.empty()) stat("lookups_owned");
    rtList l; rtList_Create(&l); rtRoutingTree_ResolvePartialPath(rt,s.c_str(),l); rtListItem it; rtList_GetFront(l,&it); std::set<int> seen; size_t cnt=0; std::set<int> wp=m.partial(s);
    while(it){ char* t; rtListItem_GetData(it,(void**)&t); Path p=split(t); auto o=m.own.find(p); CHECK(o!=m.own.end(),"partial-unknown","'%s' resolves to '%s' which nobody owns",s.substr(0,600).c_str(),t); for(int w: o->second) if(wp.count(w)) seen.insert(w); cnt++; rtListItem_GetNext(it,&it); }
    CHECK(cnt==wp.size(),"partial-count","'%s' resolves to %zu destinations, owners below it: %s",s.substr(0,600).c_str(),cnt,show(wp).c_str());
    CHECK(seen==wp,"partial","'%s' resolves to %s, owners below it: %s",s.substr(0,600).c_str(),show(seen).c_str(),show(wp).c_str());
    rtList_Destroy(l,NULL); distinct(strf("probe/%zu/%zu/%d/%zu",want.size(),wp.size(),!s.empty()&&s.back()=='.',std::min<size_t>(split(s).size(),12))); };
  auto topics=[&](int w){
    rtList l=NULL; rtRoutingTree_GetRouteTopics(rt,owners+w,&l); std::multiset<std::string> got; rtListItem it=NULL; if(l) rtList_GetFront(l,&it);
    while(it){ rtTreeTopic* t; rtListItem_GetData(it,(void**)&t); got.insert(t->fullName); rtListItem_GetNext(it,&it); }
    CHECK(got==m.topics(w),"topics","owner %d is listed with %zu topics, has %zu",w,got.size(),m.topics(w).size()); };
  for(int i=0;i<steps;i++)
  {
    int op=r.below(20), w=r.below(no); std::string s; int ev=0;
    if(op<9)
    {
      s=(!pool.empty()&&r.chance(25))?r.pick(pool):fresh(); if(!addable(s)) continue; pool.push_back(s); bool nd=nodup_only||r.chance(50);
      g_case=strf("step %d add '%s' owner %d nodup %d; names %zu",i,s.substr(0,300).c_str(),w,nd,m.own.size());
      int rc=rtRoutingTree_AddTopicRoute(rt,s.c_str(),owners+w,nd), want=m.add(s,w,nd); int cls=rc==RT_OK?0:rc==RT_ERROR_DUPLICATE_ENTRY?1:rc==RT_ERROR_PROTOCOL_ERROR?2:rc==RT_ERROR_INVALID_EXPRESSION?3:9;
      CHECK(cls==want,"add","adding '%s' for %d returned %d, expected class %d",s.substr(0,600).c_str(),w,rc,want); ev=want; probe(s);
    }
    else if(op<14 && !pool.empty())
    {
      s=r.pick(pool); int k=r.below(12); if(k==0){ std::string q=asked(s); bool inst=false; for(auto& t: split(q)) if(!t.empty()&&(isdigit((unsigned char)t[0])||t[0]=='['||t[0]=='*')) inst=true; if(!inst) s=q; /*instances are never added or removed*/ } else if(k==1){ Path p=split(s); if(p.size()>1){ p.pop_back(); s=joinp(p); } } else if(k==2) s+=".";
      if(r.chance(75)){ Path p=split(s); auto o=m.own.find(p); if(o!=m.own.end()) w=o->second[r.below(o->second.size())]; }
      g_case=strf("step %d remove '%s' owner %d; names %zu",i,s.substr(0,300).c_str(),w,m.own.size());
      size_t before=m.topics(w).size(); rtRoutingTree_RemoveTopic(rt,s.c_str(),owners+w); m.remove(s,w); ev=before-m.topics(w).size(); stat("removals",ev); probe(s);
    }
    else if(op==14){ g_case=strf("step %d remove owner %d with %zu names",i,w,m.topics(w).size()); rtRoutingTree_RemoveRoute(rt,owners+w); m.removeAll(w); stat("owners_removed"); }
    else { s=pool.empty()?fresh():asked(r.pick(pool)); g_case=strf("step %d probe '%s'",i,s.substr(0,300).c_str()); probe(s); }
    distinct(strf("op/%d/%d/%zu/%d",op<9?0:op<14?1:op,ev,std::min<size_t>(m.own.size(),40),no)); stat("operations");
    topics(w);
    if(i%8==7||i==steps-1){ g_case=strf("step %d everything, %zu names",i,m.own.size()); for(auto& o: m.own){ probe(joinp(o.first)); probe(joinp(o.first)+"."); } for(int k=0;k<6&&!pool.empty();k++) probe(asked(r.pick(pool))); for(int x=0;x<no;x++) topics(x); }
    if(i==9) sample(strf("%zu names after 10 steps, last: %s",m.own.size(),s.substr(0,200).c_str()));
  }
  for(int x=0;x<no;x++){ rtRoutingTree_RemoveRoute(rt,owners+x); m.removeAll(x); }
  for(auto& s: pool){ size_t n; CHECK(real_lookup(rt,s,owners,n).empty(),"left-behind","'%s' is still routed although every owner is gone",s.substr(0,600).c_str()); }
  rtRoutingTree_Destroy(rt);
}
int main(int argc, char** argv){ rtLog_SetLevel(RT_LOG_FATAL); size_t h0=0; 
  return run_cases(argc,argv,[&](Rng& r,long i){ size_t b=heap_bytes(); (void)b; tree(r,i); }); }
