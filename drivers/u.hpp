// Common parts of the unit drivers: deterministic PRNG, oracle macro, statistics.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <malloc.h>
struct Rng
{
  uint64_t s; explicit Rng(uint64_t x=1): s(x*0x9E3779B97F4A7C15ull+0xD1B54A32D192ED03ull) {}
  uint64_t u(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  uint32_t below(uint32_t n){ return n? (uint32_t)(u()%n):0; }
  int range(int a,int b){ return a+(int)below((uint32_t)(b-a+1)); }
  bool chance(int pct){ return below(100)<(uint32_t)pct; }
  template<class T> T const& pick(std::vector<T> const& v){ return v[below((uint32_t)v.size())]; }
};
static std::map<std::string,long> g_stat;
static std::set<std::string> g_distinct;
static std::string g_case;   // description of the running case
static long g_case_no=0; static uint64_t g_seed=1;
static void stat(const char* k, long n=1){ g_stat[k]+=n; }
static void distinct(std::string const& k){ if(g_distinct.size()<200000) g_distinct.insert(k); }
static std::string strf(const char* f, ...){ char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
static void report()
{
  for(auto& s: g_stat) printf("STAT %s %ld\n",s.first.c_str(),s.second);
  for(auto& d: g_distinct){ std::string t=d; for(char& c: t) if(c=='\n') c=' '; printf("D %s\n",t.c_str()); }
  fflush(stdout);
}
static void sample(std::string t){ static int n=0; if(n++<2){ for(char& c: t) if(c=='\n') c=' '; printf("SAMPLE %s\n",t.substr(0,1000).c_str()); } }
[[noreturn]] static void mismatch(const char* key, std::string const& text)
{
  std::string t=text; for(char& c: t) if(c=='\n'||c=='\r') c=' ';
  std::string cs=g_case; for(char& c: cs) if(c=='\n'||c=='\r') c=' ';
  printf("MISMATCH %s %s (seed %llu case %ld: %s)\n",key,t.substr(0,1500).c_str(),(unsigned long long)g_seed,g_case_no,cs.substr(cs.size()>1200?cs.size()-1200:0).c_str());
  report(); fflush(stdout); _exit(1);
}
#define CHECK(c,key,...) do{ g_stat["oracle_checks"]++; if(!(c)) mismatch(key,strf(__VA_ARGS__)); }while(0)
extern "C" size_t __attribute__((weak)) __sanitizer_get_current_allocated_bytes(void);
static size_t heap_bytes(){ return __sanitizer_get_current_allocated_bytes?__sanitizer_get_current_allocated_bytes():mallinfo2().uordblks; }
static std::string hex(const void* p, size_t n){ std::string r; char b[4]; for(size_t i=0;i<n&&i<400;i++){ snprintf(b,4,"%02x",((const uint8_t*)p)[i]); r+=b;} return r; }
// main loop helper: run body(case rng) for 'count' cases
template<class F> static int run_cases(int argc, char** argv, F body)
{
  // args: seed count [first]
  g_seed=strtoull(argv[1],0,10); long n=atol(argv[2]), first=argc>3?atol(argv[3]):0;
  for(long i=first;i<first+n;i++){ g_case_no=i; g_case.clear(); Rng r(g_seed*1000003ull+(uint64_t)i); body(r,i); stat("cases"); }
  report(); return 0;
}
