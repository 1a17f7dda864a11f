// P29: thread pools and semaphores under stress: every task once, never more threads than allowed, destruction as told; admissions never exceed posts.
#include "u.hpp"
#include <pthread.h>
#include <atomic>
#include <thread>
#include <chrono>
#include <mutex>
#include <memory>
#include <dirent.h>
extern "C" {
#include "rtThreadPool.h"
#include "rtSemaphore.h"
#include "rtTime.h"
#include "rtLog.h"
}
typedef std::chrono::steady_clock Clk;
static double now(){ return std::chrono::duration<double>(Clk::now().time_since_epoch()).count(); }
static void us(long n){ if(n>0) usleep((useconds_t)n); }
static int tasks_now(){ int n=0; DIR* d=opendir("/proc/self/task"); if(!d) return 0; while(struct dirent* e=readdir(d)) if(e->d_name[0]!='.') n++; closedir(d); return n; }
static long vm_mb(){ FILE* f=fopen("/proc/self/statm","r"); long p=0; if(f){ if(fscanf(f,"%ld",&p)!=1) p=0; fclose(f); } return p*4/1024; }

static int g_base=1;
struct Case;
struct Task { Case* c; int id; int dur; int group; int spawn; std::atomic<int> started{0}, done{0}; };
struct Case
{
  rtThreadPool pool=nullptr; size_t max=1; std::vector<std::unique_ptr<Task>> t; std::mutex m;
  std::atomic<int> running{0}, peak{0}, accepted{0}; std::atomic<int> grp[64]; int gsize[64]; std::atomic<int> stuck{-1}; std::atomic<int> refused{0};
  double lastDone=0; std::mutex dm;
  Task* add(int dur,int group,int spawn){ std::lock_guard<std::mutex> l(m); t.emplace_back(new Task); Task* x=t.back().get(); x->c=this; x->id=(int)t.size()-1; x->dur=dur; x->group=group; x->spawn=spawn; return x; }
};
static void run(void* d);
static void give(Case* c, Task* x)
{
  rtError e=rtThreadPool_RunTask(c->pool,run,x);
  if(e==RT_OK||e==RT_ERROR_THREADPOOL_TASK_PENDING) c->accepted++; else c->refused++;
}
static void run(void* d)
{
  Task* x=(Task*)d; Case* c=x->c;
  x->started++;
  int r=++c->running, p=c->peak; while(r>p && !c->peak.compare_exchange_weak(p,r)){}
  if(x->group>=0)
  {
    c->grp[x->group]++;
    double t0=now();
    while(c->grp[x->group]<c->gsize[x->group]){ us(200); if(now()-t0>20){ c->stuck=x->group; break; } }
  }
  us(x->dur);
  for(int i=0;i<x->spawn;i++) give(c,c->add(x->dur/2,-1,0));
  { std::lock_guard<std::mutex> l(c->dm); c->lastDone=now(); }
  c->running--;
  x->done++;
}

static void pool_case(Rng& r)
{
  Case* c=new Case; for(auto& g: c->grp) g=0;
  c->max=(size_t)r.pick<int>({1,1,2,3,5,8});
  size_t stack=r.chance(50)?0:(size_t)r.pick<int>({65536*4,1<<20});
  int expire=r.pick<int>({0,1,2,-3});
  rtError e=rtThreadPool_Create(&c->pool,c->max,stack,expire);
  CHECK(e==RT_OK,"pool-create","%d",e);
  int before=g_base;
  int n=r.pick<int>({0,1,2,5,20,60}), prod=r.pick<int>({1,1,2,4});
  int big=r.pick<int>({0,50,300,3000});
  bool grp=r.chance(50), spawn=r.chance(30);
  g_case=strf("max %zu n %d producers %d dur %d groups %d spawn %d expire %d",c->max,n,prod,big,grp,spawn,expire);
  int ng=0;
  auto produce=[&](uint64_t seed, bool groups)
  {
    Rng q(seed);
    for(int i=0;i<n;i++)
    {
      int gap=q.chance(30)?(int)q.below(400):0;
      if(groups && ng<60 && q.chance(20) && c->max>1)
      { // tasks which need each other: there are threads enough for all of them
        int g=ng++, k=q.range(2,(int)c->max); c->gsize[g]=k;
        for(int j=0;j<k;j++){ give(c,c->add(0,g,0)); if(q.chance(20)) us(q.below(300)); }
        // the next group only when this one is under way
        double t0=now(); while(c->grp[g]<k && now()-t0<21) us(300);
      }
      else give(c,c->add(big?(int)q.below((uint32_t)big):0,-1,spawn&&q.chance(20)?q.range(1,3):0));
      us(gap);
    }
  };
  std::vector<std::thread> th; uint64_t s0=r.u();
  for(int i=1;i<prod;i++) th.emplace_back(produce,s0+(uint64_t)i,false);
  produce(s0,grp);
  for(auto& x: th) x.join();
  CHECK(c->stuck<0,"tasks-beside-each-other","group %d of %d tasks never ran together with %zu threads allowed",(int)c->stuck,c->stuck>=0?c->gsize[c->stuck]:0,c->max);
  CHECK(c->refused==0,"task-refused","%d of %zu tasks",(int)c->refused,c->t.size());
  if(r.chance(20)) us(r.below(5000));
  // the pool is destroyed by an outsider, while tasks which add no others may be under way
  int wait=spawn?-1:r.pick<int>({-1,-1,0,1,5,30,400});
  if(spawn){ // wait until all that is to come has been added
    double t0=now(); for(;;){ bool all=true; { std::lock_guard<std::mutex> l(c->m); for(auto& x: c->t) if(!x->done) all=false; } if(all||now()-t0>30) break; us(300); } }
  double t0=now();
  rtError d=rtThreadPool_Destroy(c->pool,wait);
  double took=now()-t0;
  int notrun=0, under=0;
  us(100);
  { double t1=now(); for(;;){ under=0; for(auto& x: c->t) if(x->started && !x->done) under++; if(!under||now()-t1>20) break; us(300); } }
  // whatever was taken from the queue ended; what was not will not run any more
  for(auto& x: c->t){ CHECK(x->started<=1 && x->started==x->done,"task-once","task %d started %d times, ended %d times",x->id,(int)x->started,(int)x->done); if(!x->started) notrun++; }
  CHECK((size_t)(int)c->peak<=c->max,"too-many-threads","%d at once, %zu allowed",(int)c->peak,c->max);
  CHECK((d==RT_ERROR_THREADPOOL_TASKS_CANCELLED)==(notrun>0) && (d==RT_OK||notrun>0),"destroy-code","destroy(%d) returned %d, %d of %zu tasks did not run",wait,d,notrun,c->t.size());
  CHECK(wait>=0||notrun==0,"destroy-waits","destroy(-1) left %d of %zu tasks",notrun,c->t.size());
  CHECK(!notrun||took>=wait/1000.0-0.003,"destroy-waits","destroy(%d) gave up after %.4f s with %d tasks left",wait,took,notrun);
  CHECK(wait<0||took<wait/1000.0+2.0,"destroy-late","destroy(%d) took %.3f s",wait,took);
  stat("tasks",(long)c->t.size()); stat("cancelled",notrun); stat("groups",ng);
  distinct(strf("pool %zu %d %d %d peak %d w%d c%d",c->max,n,prod,big,(int)c->peak,wait,notrun>0));
  // its threads end by themselves
  { double t1=now(); int k; while((k=tasks_now())>before && now()-t1<10) us(500); CHECK(k<=before,"threads-left","%d threads, %d before",k,before); }
  us(200);
  for(auto& x: c->t) CHECK(x->started<=1,"task-once","task %d ran after the pool's end",x->id);
  delete c;
}

// Threads which end after their idle time, against tasks that come just then.
static void expiry(Rng& r, int pools)
{
  struct P { rtThreadPool p; std::atomic<int> ran{0}; std::atomic<double> idle{0}; int given=0; };
  std::vector<std::unique_ptr<P>> ps;
  auto f=[](void* d){ P* p=(P*)d; p->ran++; p->idle=now(); };
  for(int i=0;i<pools;i++){ ps.emplace_back(new P); CHECK(rtThreadPool_Create(&ps.back()->p,(size_t)r.range(1,2),0,1)==RT_OK,"pool-create","expiry"); }
  std::vector<std::thread> th; uint64_t s=r.u();
  for(int k=0;k<8;k++) th.emplace_back([&,k]{
    Rng q(s+(uint64_t)k);
    for(int round=0;round<3;round++)
    {
      for(size_t i=(size_t)k;i<ps.size();i+=8)
      {
        P* p=ps[i].get();
        if(p->given){ double due=p->idle+1.0+((int)q.below(600)-250)*1e-6; double w=due-now(); if(w>0.0002) us((long)((w-0.0001)*1e6)); while(now()<due){} }
        p->given++;
        rtThreadPool_RunTask(p->p,f,p);
        if(!round && i+8<ps.size()) us(3000);
      }
      for(size_t i=(size_t)k;i<ps.size();i+=8){ double t0=now(); while(ps[i]->ran<ps[i]->given && now()-t0<8) us(100); }
    }
  });
  for(auto& x: th) x.join();
  for(auto& p: ps)
  {
    CHECK(p->ran==p->given,"task-after-idle","a task given when the idle thread's time was up never ran: %d of %d",(int)p->ran,p->given);
    stat("tasks",p->given); stat("expiries");
  }
  us(1300000);
  for(auto& p: ps) CHECK(rtThreadPool_Destroy(p->p,-1)==RT_OK,"destroy-code","idle pool");
  us(5000);
  distinct("expiry");
}

// Destruction told to wait longer than a second, with tasks ending all the time and more left than that time is enough for.
static void longstop(Rng& r)
{
  std::vector<std::thread> th; std::atomic<int> bad{0}; std::string text; std::mutex m; uint64_t s=r.u();
  for(int k=0;k<4;k++) th.emplace_back([&,k]{
    Rng q(s+(uint64_t)k); rtThreadPool p; int max=q.range(1,3), wait=q.range(1010,1400);
    rtThreadPool_Create(&p,(size_t)max,0,0);
    auto f=[](void*){ us(15000); };
    for(int i=0;i<120*max;i++) rtThreadPool_RunTask(p,f,nullptr);
    double t0=now(); rtError e=rtThreadPool_Destroy(p,wait); double took=now()-t0;
    if(e!=RT_ERROR_THREADPOOL_TASKS_CANCELLED || took<wait/1000.0-0.003 || took>wait/1000.0+2){ std::lock_guard<std::mutex> l(m); bad++; text=strf("destroy(%d) returned %d after %.4f s, with tasks for %.1f s",wait,e,took,1.8); }
  });
  for(auto& x: th) x.join();
  CHECK(!bad,"destroy-waits","%s",text.c_str());
  us(50000); stat("longstops",4); distinct("longstop");
}

static void sem_case(Rng& r)
{
  rtSemaphore s=nullptr; CHECK(rtSemaphore_Create(&s)==RT_OK,"sem-create","");
  int waiters=r.range(1,8), posters=r.range(1,4), each=r.pick<int>({1,5,50});
  int total=waiters*each; bool timed=r.chance(50); int tmo=r.pick<int>({0,1,3,20});
  g_case=strf("semaphore waiters %d posters %d each %d timed %d %d",waiters,posters,each,timed,tmo);
  std::atomic<int> posted{0}, admitted{0}, bad{0}, early{0}, timeouts{0}; std::atomic<bool> stop{false};
  std::vector<std::thread> th; uint64_t sd=r.u();
  for(int w=0;w<waiters;w++) th.emplace_back([&,w]{
    Rng q(sd+(uint64_t)w);
    for(int i=0;i<each;)
    {
      rtError e;
      if(timed && q.chance(70))
      {
        rtTime_t t0,t; rtTime_Now(&t0); rtTime_Later(&t0,(unsigned)tmo,&t);
        e=rtSemaphore_TimedWait(s,&t);
        if(e==RT_ERROR_TIMEOUT){ timeouts++; rtTime_t n; rtTime_Now(&n); if(rtTime_Compare(&n,&t)<0) early++; continue; }
      }
      else e=rtSemaphore_Wait(s);
      if(e!=RT_OK){ bad++; continue; }
      if(++admitted>posted) bad+=1000;
      i++;
      if(q.chance(20)) us(q.below(60));
    }
  });
  std::atomic<int> left{total};
  for(int p=0;p<posters;p++) th.emplace_back([&,p]{
    Rng q(sd+100+(uint64_t)p);
    while(left-- > 0){ posted++; if(rtSemaphore_Post(s)!=RT_OK) bad++; if(q.chance(40)) us(q.below(120)); }
  });
  double t0=now();
  while(admitted<total && now()-t0<20 && bad<1000) us(500);
  CHECK(bad==0,"sem-admits","%d admitted with %d posts (code %d)",(int)admitted,(int)posted,(int)bad);
  CHECK(admitted==total,"sem-lost-post","%d of %d posts let somebody through",(int)admitted,total);
  for(auto& x: th) x.join();
  int v=-1; rtSemaphore_GetValue(s,&v);
  CHECK(v==0 && admitted==posted,"sem-count","value %d after %d posts and %d admissions",v,(int)posted,(int)admitted);
  CHECK(early==0,"sem-early","%d waits ended before their time",(int)early);
  int extra=r.range(0,4); for(int i=0;i<extra;i++) rtSemaphore_Post(s);
  rtTime_t past; rtTime_Now(&past); past.tv_sec-=1;
  for(int i=0;i<extra;i++) CHECK(rtSemaphore_TimedWait(s,&past)==RT_OK,"sem-count","post %d of %d not there",i,extra);
  CHECK(rtSemaphore_TimedWait(s,&past)==RT_ERROR_TIMEOUT,"sem-count","%d posts let %d through",extra,extra+1);
  CHECK(rtSemaphore_Destroy(s)==RT_OK,"sem-destroy","");
  stat("posts",total+extra); stat("timeouts",timeouts);
  distinct(strf("sem %d %d %d %d to%d",waiters,posters,each,timed,timeouts>0));
}

int main(int argc, char** argv)
{
  rtLog_SetLevel(RT_LOG_FATAL);
  std::string what=argc>4?argv[4]:"cases";
  if(what=="expiry"){ g_seed=strtoull(argv[1],0,10); Rng r(g_seed*77+(uint64_t)atol(argv[3])); for(long i=0;i<atol(argv[2]);i++){ expiry(r,160); longstop(r); stat("cases"); } report(); return 0; }
  long vm0=0;
  std::thread([]{}).join(); us(20000); g_base=tasks_now();     // a sanitizer may have a thread of its own
  return run_cases(argc,argv,[&](Rng& r, long i){
    for(int k=0;k<3;k++) pool_case(r);
    for(int k=0;k<2;k++) sem_case(r);
    stat("rounds");
    long first=argc>3?atol(argv[3]):0;
    if(i==first+4) vm0=vm_mb();
    if(i>first+10 && i%10==0) CHECK(vm_mb()-vm0<1500,"thread-memory","address space grew by %ld MB: ended threads are not given back",vm_mb()-vm0);
  });
}
