#include "sched.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <cstdlib>
#include <cstring>
#include <new>
#include <atomic>

namespace {
// -------------------------------------------------------------------- shadow memory
struct Cell { uintptr_t key; uint32_t gen; uint32_t w[2], r[2]; };
const size_t cells=size_t(1)<<21;
Cell* tab=nullptr; uint32_t gen=0; size_t used=0;
Cell& cell(uintptr_t a)
{
    size_t i=(a*0x9E3779B97F4A7C15ull)>>43;
    for(;;i=(i+1)&(cells-1))
    {
        Cell& c=tab[i];
        if(c.gen!=gen){ c.gen=gen; c.key=a; c.w[0]=c.w[1]=c.r[0]=c.r[1]=0; if(++used>cells/2) abort(); return c; }
        if(c.key==a) return c;
    }
}
Cell* find(uintptr_t a)
{
    size_t i=(a*0x9E3779B97F4A7C15ull)>>43;
    for(;;i=(i+1)&(cells-1)){ Cell& c=tab[i]; if(c.gen!=gen) return nullptr; if(c.key==a) return &c; }
}
// -------------------------------------------------------------------- threads
thread_local int tid=-1; thread_local bool inside=false; thread_local int locks=0;
struct Th { pthread_t t; sem_t go; uintptr_t lo=0,hi=0; std::function<void()> const* fn=nullptr; bool done=true; } th[2];
sem_t back; bool started=false;
uint32_t vc[2][2];              // vector clocks
struct Sync { uintptr_t a; uint32_t v[2]; }; std::vector<Sync>* syncs;
sched::Report* rep; std::vector<uint64_t> const* sw; size_t swi;

void access(uintptr_t a, size_t n, bool write, void* pc)
{
    if(tid<0||inside||!n) return;
    if(a>=th[tid].lo&&a<th[tid].hi) return;
    inside=true;
    rep->accesses++;
    int o=1-tid;
    for(size_t i=0;i<n;++i)
    {
        Cell& c=cell(a+i); uint32_t e=write? (c.w[o]>c.r[o]?c.w[o]:c.r[o]) : c.w[o];
        if(e>vc[tid][o]&&!rep->race)
        {
            rep->race=true; rep->addr=a+i; char b[200];
            snprintf(b,sizeof b,"thread %d %s memory the other thread %s, unordered",tid+1,write?"writes":"reads",c.w[o]>vc[tid][o]?"writes":"reads"); rep->what=b; (void)pc;
        }
        (write?c.w:c.r)[tid]=vc[tid][tid];
    }
    inside=false;
}
void fresh(void* p, size_t n) // a new block belongs to nobody
{
    if(tid<0||inside||!p) return;
    inside=true;
    for(size_t i=0;i<n;++i) if(Cell* c=find(uintptr_t(p)+i)) c->w[0]=c->w[1]=c->r[0]=c->r[1]=0;
    inside=false;
}
void yield_to_other()
{
    int o=1-tid;
    if(th[o].done) return;
    sem_post(&th[o].go); while(sem_wait(&th[tid].go)){}
}
enum { acq=1, rel=2 };
void sync(uintptr_t a, int how, bool point=true)
{
    if(tid<0||inside) return;
    if(a>=th[tid].lo&&a<th[tid].hi) return;
    inside=true;
    if(point)
    {
        uint64_t n=rep->syncs++;
        if(swi<sw->size()&&(*sw)[swi]==n){ ++swi; if(!locks){ inside=false; yield_to_other(); inside=true; } }
    }
    Sync* s=nullptr; for(auto& x: *syncs) if(x.a==a) s=&x;
    if(!s){ syncs->push_back({a,{0,0}}); s=&syncs->back(); }
    if(how&acq) for(int i=0;i<2;++i) if(s->v[i]>vc[tid][i]) vc[tid][i]=s->v[i];
    if(how&rel){ for(int i=0;i<2;++i) if(vc[tid][i]>s->v[i]) s->v[i]=vc[tid][i]; vc[tid][tid]++; }
    inside=false;
}
void* body(void* p)
{
    int me=int(intptr_t(p));
    pthread_attr_t at; pthread_getattr_np(pthread_self(),&at); void* lo; size_t n; pthread_attr_getstack(&at,&lo,&n); pthread_attr_destroy(&at);
    th[me].lo=uintptr_t(lo); th[me].hi=uintptr_t(lo)+n;
    for(;;)
    {
        while(sem_wait(&th[me].go)){}
        locks=0; inside=false; tid=me;
        (*th[me].fn)();
        tid=-1;
        th[me].done=true;
        int o=1-me;
        if(!th[o].done) sem_post(&th[o].go); else sem_post(&back);
    }
    return nullptr;
}
}
namespace sched {
Report run(std::function<void()> const& a, std::function<void()> const& b, int first, std::vector<uint64_t> const& switches)
{
    if(!started)
    {
        started=true; tab=static_cast<Cell*>(calloc(cells,sizeof(Cell))); syncs=new std::vector<Sync>;
        sem_init(&back,0,0);
        for(int i=0;i<2;++i){ sem_init(&th[i].go,0,0); if(pthread_create(&th[i].t,nullptr,body,reinterpret_cast<void*>(intptr_t(i)))) abort(); }
    }
    Report r; ++gen; used=0; syncs->clear(); vc[0][0]=vc[1][1]=1; vc[0][1]=vc[1][0]=0; rep=&r; sw=&switches; swi=0;
    th[0].fn=&a; th[1].fn=&b; th[0].done=th[1].done=false;
    sem_post(&th[first].go);
    while(sem_wait(&back)){}
    return r;
}
}
// ------------------------------------------------------------------------ allocation
void* operator new(size_t n){ void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); fresh(p,n); return p; }
void* operator new[](size_t n){ return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p,size_t) noexcept { free(p); }
void operator delete[](void* p,size_t) noexcept { free(p); }
// ------------------------------------------------------------------------ hooks
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64; typedef unsigned __int128 u128;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){} void __tsan_ignore_thread_begin(){} void __tsan_ignore_thread_end(){}
#define RW(n) void __tsan_read##n(void* p){ access(uintptr_t(p),n,false,PC); } void __tsan_write##n(void* p){ access(uintptr_t(p),n,true,PC); } \
 void __tsan_unaligned_read##n(void* p){ access(uintptr_t(p),n,false,PC); } void __tsan_unaligned_write##n(void* p){ access(uintptr_t(p),n,true,PC); } \
 void __tsan_volatile_read##n(void* p){ access(uintptr_t(p),n,false,PC); } void __tsan_volatile_write##n(void* p){ access(uintptr_t(p),n,true,PC); } \
 void __tsan_unaligned_volatile_read##n(void* p){ access(uintptr_t(p),n,false,PC); } void __tsan_unaligned_volatile_write##n(void* p){ access(uintptr_t(p),n,true,PC); } \
 void __tsan_read_write##n(void* p){ access(uintptr_t(p),n,true,PC); } void __tsan_unaligned_read_write##n(void* p){ access(uintptr_t(p),n,true,PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p,size_t n){ access(uintptr_t(p),n,false,PC); } void __tsan_write_range(void* p,size_t n){ access(uintptr_t(p),n,true,PC); }
void __tsan_vptr_read(void** p){ access(uintptr_t(p),8,false,PC); }
void __tsan_vptr_update(void** p,void* v){ if(*p!=v) access(uintptr_t(p),8,true,PC); else access(uintptr_t(p),8,false,PC); }
#define AT(T,N) \
T __tsan_atomic##N##_load(const volatile T* a,int){ sync(uintptr_t(a),acq); return __atomic_load_n(a,__ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile T* a,T v,int){ sync(uintptr_t(a),rel); __atomic_store_n(a,v,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_exchange(volatile T* a,T v,int){ sync(uintptr_t(a),acq|rel); return __atomic_exchange_n(a,v,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_add(volatile T* a,T v,int){ sync(uintptr_t(a),acq|rel); return __atomic_fetch_add(a,v,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_sub(volatile T* a,T v,int){ sync(uintptr_t(a),acq|rel); return __atomic_fetch_sub(a,v,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_and(volatile T* a,T v,int){ sync(uintptr_t(a),acq|rel); return __atomic_fetch_and(a,v,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_or(volatile T* a,T v,int){ sync(uintptr_t(a),acq|rel); return __atomic_fetch_or(a,v,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_xor(volatile T* a,T v,int){ sync(uintptr_t(a),acq|rel); return __atomic_fetch_xor(a,v,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_nand(volatile T* a,T v,int){ sync(uintptr_t(a),acq|rel); return __atomic_fetch_nand(a,v,__ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* a,T* c,T v,int,int){ sync(uintptr_t(a),acq|rel); return __atomic_compare_exchange_n(a,c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* a,T* c,T v,int,int){ sync(uintptr_t(a),acq|rel); return __atomic_compare_exchange_n(a,c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* a,T c,T v,int,int){ sync(uintptr_t(a),acq|rel); __atomic_compare_exchange_n(a,&c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return c; }
AT(u8,8) AT(u16,16) AT(u32,32) AT(u64,64)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
// functions of the C library that touch the caller's memory, called from instrumented code
void* __real_memcpy(void*,const void*,size_t); void* __real_memmove(void*,const void*,size_t); void* __real_memset(void*,int,size_t); int __real_memcmp(const void*,const void*,size_t); void* __real_memchr(const void*,int,size_t); size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d,const void* s,size_t n){ access(uintptr_t(s),n,false,PC); access(uintptr_t(d),n,true,PC); return __real_memcpy(d,s,n); }
void* __wrap_memmove(void* d,const void* s,size_t n){ access(uintptr_t(s),n,false,PC); access(uintptr_t(d),n,true,PC); return __real_memmove(d,s,n); }
void* __wrap_memset(void* d,int c,size_t n){ access(uintptr_t(d),n,true,PC); return __real_memset(d,c,n); }
int __wrap_memcmp(const void* a,const void* b,size_t n){ access(uintptr_t(a),n,false,PC); access(uintptr_t(b),n,false,PC); return __real_memcmp(a,b,n); }
void* __wrap_memchr(const void* a,int c,size_t n){ void* r=__real_memchr(a,c,n); access(uintptr_t(a),r?size_t((char*)r-(char*)a)+1:n,false,PC); return r; }
size_t __wrap_strlen(const char* s){ size_t n=__real_strlen(s); access(uintptr_t(s),n+1,false,PC); return n; }
void* __real___cxa_allocate_exception(size_t) noexcept; void* __wrap___cxa_allocate_exception(size_t n) noexcept { void* p=__real___cxa_allocate_exception(n); fresh(p,n); return p; }
void* __real_malloc(size_t); void* __wrap_malloc(size_t n){ void* p=__real_malloc(n); fresh(p,n); return p; }
void* __real_calloc(size_t,size_t); void* __wrap_calloc(size_t n,size_t m){ void* p=__real_calloc(n,m); fresh(p,n*m); return p; }
int __real___cxa_guard_acquire(void*); void __real___cxa_guard_release(void*) noexcept; void __real___cxa_guard_abort(void*) noexcept;
int __wrap___cxa_guard_acquire(void* g){ sync(uintptr_t(g),acq); int r=__real___cxa_guard_acquire(g); if(r) ++locks; return r; }
void __wrap___cxa_guard_release(void* g) noexcept { sync(uintptr_t(g),rel,false); --locks; __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(void* g) noexcept { sync(uintptr_t(g),rel,false); --locks; __real___cxa_guard_abort(g); }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __wrap_pthread_mutex_lock(pthread_mutex_t* m){ sync(uintptr_t(m),acq); int r=__real_pthread_mutex_lock(m); ++locks; return r; }
int __real_pthread_mutex_unlock(pthread_mutex_t*); int __wrap_pthread_mutex_unlock(pthread_mutex_t* m){ sync(uintptr_t(m),rel,false); --locks; return __real_pthread_mutex_unlock(m); }
}
