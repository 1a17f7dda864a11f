/* Preloaded into the broker: keeps a file up to date with the bytes of live heap (address sanitizer's count), descriptors and threads. */
#include <dirent.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
size_t __attribute__((weak)) __sanitizer_get_current_allocated_bytes(void);
static const char* path;
static void* run(void* p)
{
  (void)p;
  FILE* f=fopen(path,"w+");
  if(!f) return NULL;
  for(unsigned long n=1;;n++){ rewind(f); fprintf(f,"%20lu %20zu\n",n,__sanitizer_get_current_allocated_bytes?__sanitizer_get_current_allocated_bytes():0); fflush(f); usleep(20000); }
  return NULL;
}
__attribute__((constructor)) static void start(void)
{
  path=getenv("HEAPMON");
  if(!path) return;
  sigset_t all,old; sigfillset(&all); pthread_sigmask(SIG_SETMASK,&all,&old);
  pthread_t t; pthread_create(&t,NULL,run,NULL); pthread_detach(t);
  pthread_sigmask(SIG_SETMASK,&old,NULL);
}
