// Loaded with LD_PRELOAD: seeds what the Go runtime takes from the operating system
// before any Go code runs, and keeps the runtime's monitor thread asleep.
#define _GNU_SOURCE
#include <sys/auxv.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/mman.h>

static uint64_t splitmix(uint64_t *x){uint64_t z=(*x+=0x9e3779b97f4a7c15ULL);z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL;z=(z^(z>>27))*0x94d049bb133111ebULL;return z^(z>>31);}
static int nthreads=0;
// The Go runtime seeds its hash functions, map iteration, select and math/rand from AT_RANDOM.
__attribute__((constructor)) static void sim_ctor(void){
  const char*s=getenv("SIM_SEED"); if(!s)return;
  uint64_t x=strtoull(s,0,10)*2654435761u+12345;
  unsigned char*p=(unsigned char*)getauxval(AT_RANDOM);
  if(!p)return;
  uint64_t a=splitmix(&x),b=splitmix(&x);
  memcpy(p,&a,8);memcpy(p+8,&b,8);
}
typedef int (*pc_t)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
static void* sim_gate(void*a){ (void)a; for(;;) pause(); return 0;}
// The first thread a Go program creates is sysmon, whose preemptions depend on real time.
int pthread_create(pthread_t*t,const pthread_attr_t*at,void*(*f)(void*),void*a){
  static pc_t real; if(!real) real=(pc_t)dlsym(RTLD_NEXT,"pthread_create");
  int n=__sync_fetch_and_add(&nthreads,1);
  if(n==0 && getenv("SIM_SEED")) return real(t,at,sim_gate,a);
  return real(t,at,f,a);
}
