// Deterministic simulation runtime. Built without instrumentation; everything else is built with -fsanitize=thread and
// linked against this file instead of libtsan, so that every memory access of the code under test comes through here.
#include "simrt.h"
#include <new>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <dlfcn.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <mpfr.h>

typedef uintptr_t uptr;
#define LIKELY(x) __builtin_expect(!!(x),1)
#define UNLIKELY(x) __builtin_expect(!!(x),0)
#define PC() ((u32)(uptr)__builtin_return_address(0))

extern "C" { void* __real_memcpy(void*,const void*,size_t); void* __real_memmove(void*,const void*,size_t); void* __real_memset(void*,int,size_t);
             extern char __data_start[]; extern char _end[]; extern char __executable_start[]; extern char etext[]; }

static const uptr ARENA=0x100000000000ull, ARENA_SIZE=1ull<<34;      // heap
static const uptr SIMHEAP=ARENA+(1ull<<30);                            // where the simulated heap begins
static const uptr STATE=0x200000000000ull;                           // one byte per 8 heap bytes
static const uptr SLOTS=0x300000000000ull;                           // race slots of the heap: 64 bytes per 8
static const uptr DSLOTS=0x400000000000ull;                          // race slots of .data/.bss
static const uptr SSLOTS=0x480000000000ull;                          // race slots of the main simulated stack
static const uptr STACKS=0x500000000000ull, STACK_SIZE=1ull<<25;     // 32 MB per simulated thread

sim_shared* sim_sh;
extern "C" { int sim_cpu=-1; }

// ------------------------------------------------------------------------------------------------ state
struct Slot { u32 clk; u32 pc; u8 tid, mask, flags, pad; u32 pad2; };   // flags: 1 write, 2 atomic
struct Thr {
    int id; volatile int go; int state;        // 0 free, 1 runnable, 2 blocked, 3 finished
    u32 vc[SIM_MAXT];
    void* (*fn)(void*); void* arg; void* ret; pthread_t pt; int joined;
    const void* wait_obj; u64 wait_seq; u64 deadline; int timed_out;
    int ignore;
    u64 alloc_idx, fail_at, fail_n; int armed, fired, apause;
    u32 prio; u64 steps;
};
static struct {
    int on, multi, ever, nlive; Thr* cur;
    u64 event, next_ev, acc, hash, ihash; u64 rng; u64 wait_seq;
    u32 ex_i; int victim; u64 victim_until;
    u64 pct_points[64]; int pct_n, pct_i;
    u64 wall, mono;
    u64 ev_budget, acc_budget;
    uptr dlo, dhi;
    Thr* volatile exiting; volatile int reap; volatile int all_done;
} g;
static Thr thr[SIM_MAXT];
static __thread Thr* me __attribute__((tls_model("initial-exec")));

extern "C" u64 sim_mix(u64 x) { x+=0x9E3779B97F4A7C15ull; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
static inline u64 rnd() { g.rng+=0x9E3779B97F4A7C15ull; u64 x=g.rng; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
static inline void hadd(u64 v) { g.hash=(g.hash^v)*0x9E3779B97F4A7C15ull; g.hash^=g.hash>>29; }
extern "C" void sim_hash_add(u64 v) { hadd(v); }
extern "C" int sim_self() { return me?me->id:0; }
extern "C" int sim_active() { return g.on; }
extern "C" u64 sim_events() { return g.event; }
extern "C" void sim_ignore_begin() { if (me) me->ignore++; }
extern "C" void sim_ignore_end() { if (me) me->ignore--; }

// ------------------------------------------------------------------------------------------------ reporting
static void vtext(const char* fmt, va_list ap) {
    u32 n=sim_sh->text_len; if (n+2>=SIM_TEXT) return;
    int k=vsnprintf(sim_sh->text+n,SIM_TEXT-n-2,fmt,ap); if (k<0) return;
    u32 e=n+(u32)k; if (e>SIM_TEXT-2) e=SIM_TEXT-2;
    for (u32 i=n;i<e;++i) if (sim_sh->text[i]=='\n') sim_sh->text[i]=' ';
    sim_sh->text[e]='\n'; sim_sh->text_len=e+1;
}
extern "C" void sim_report(const char* fmt, ...) { if(!sim_sh) return; va_list ap; va_start(ap,fmt); vtext(fmt,ap); va_end(ap); }
static int backtrace_pcs(u32* out, int n) {
    uptr* fp=(uptr*)__builtin_frame_address(0); int k=0; uptr lo=(uptr)fp, hi=0;
    if (me) { hi=STACKS+(uptr)(me->id+1)*STACK_SIZE; if (lo<hi-STACK_SIZE||lo>=hi) hi=0; }
    if (!hi) return 0;
    while (k<n && (uptr)fp>=lo && (uptr)fp+16<=hi && !((uptr)fp&7)) {
        uptr pc=fp[1]; if (pc>=(uptr)__executable_start && pc<(uptr)etext) out[k++]=(u32)pc;
        uptr* nf=(uptr*)fp[0]; if (nf<=fp) break; fp=nf; }
    return k;
}
static void finish_stats() {
    sim_sh->events=g.event; sim_sh->accesses=g.acc; sim_sh->hash=g.hash; sim_sh->interleaving_hash=g.ihash;
    sim_sh->sim_ns=g.mono;
}
static void vviol(const char* cls, const char* fmt, va_list ap) {
    char buf[2048]; vsnprintf(buf,sizeof buf,fmt,ap);
    u32 pcs[12]; int n=backtrace_pcs(pcs,12); char bt[256]; int o=0; bt[0]=0;
    for (int i=0;i<n && o<220;++i) o+=snprintf(bt+o,sizeof(bt)-o,"%x,",pcs[i]);
    sim_sh->nviol++;
    sim_report("violation %s at=%llu bt=%s %s",cls,(unsigned long long)g.event,bt,buf);
}
extern "C" void sim_violation(const char* cls, const char* fmt, ...) { va_list ap; va_start(ap,fmt); vviol(cls,fmt,ap); va_end(ap); }
extern "C" void sim_fatal(const char* cls, const char* fmt, ...) {
    va_list ap; va_start(ap,fmt); g.on=0; vviol(cls,fmt,ap); va_end(ap); finish_stats(); sim_sh->finished=2; _exit(0); }
extern "C" int sim_nviolations() { return sim_sh->nviol; }

// ------------------------------------------------------------------------------------------------ heap
struct Blk { u32 magic, size, cap, kind; u64 id; u32 pc[4]; Blk *prev,*next; u32 align; u32 pad; };   // 64 bytes
static_assert(sizeof(Blk)==64,"");
enum { MAGIC=0x51AB10C5, FREED=0x51ABDEAD, K_C=0, K_NEW=1 };
static struct {
    int inited; uptr up, down; uptr zone[8]; int nzones;
    Blk* fl_head[96]; Blk* fl_tail[96]; u32 fl_n[96];
    Blk* live; u64 next_id; u64 nlive, blive, total; u64 rng;
    u64 epoch;
} H;
static u8* const ST=(u8*)STATE;
static void* xmap(uptr at, uptr size) {
    void* p=mmap((void*)at,size,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
    if (p!=(void*)at) { static const char m[]="sim: cannot map\n"; (void)!write(2,m,sizeof m-1); _exit(97); }
    return p;
}
static void heap_init() {
    if (H.inited) return; H.inited=1;
    xmap(ARENA,ARENA_SIZE); xmap(STATE,ARENA_SIZE/8);
    H.nzones=8; for (int i=0;i<8;++i) H.zone[i]=ARENA+(9ull<<30)+(uptr)i*(3ull<<28);
    H.up=ARENA+64; H.next_id=1;
}
static inline int cls_of(u32 cap) { // cap: multiple of 16
    if (cap<=1024) return (int)(cap>>4);          // 1..64
    int k=64; u32 c=1024; while (c<cap) { c<<=1; ++k; } return k; }
static inline u32 cap_of(u64 size) { if (size<16) size=16; if (size<=1024) return (u32)((size+15)&~15ull);
    u64 c=2048; while (c<size) c<<=1; return c>0xFFFFFFF0ull?0xFFFFFFF0u:(u32)c; }
static inline u64 hrnd() { H.rng=H.rng*6364136223846793005ull+1442695040888963407ull; return H.rng>>33; }
static void set_state(uptr p, u32 size, u32 cap, int live) {
    u8* s=ST+((p-ARENA)>>3); u32 n=cap>>3;
    if (!live) { __real_memset(s,0xFD,n); return; }
    u32 f=size>>3; __real_memset(s,8,f); if (f<n) { s[f]=(u8)((size&7)?(size&7):0xFA); for (u32 i=f+1;i<n;++i) s[i]=0xFA; }
}
static void fill(uptr p, u32 size, int freed) {
    int m=g.on?sim_sh->heap_fill:1;
    if (freed) { __real_memset((void*)p,m==0?0xDD:(m==1?0xDD:(m==2?0xF1:(m==3?0x5D:0x03))),size>4096?4096:size); return; }
    if (m==0) __real_memset((void*)p,0,size);
    else if (m==1) __real_memset((void*)p,0xA5,size);
    else if (m==2) __real_memset((void*)p,0xFF,size);
    else if (m==3) { u64* q=(u64*)p; for (u32 i=0;i<size/8;++i) q[i]=0x3FF0000000000000ull+(hrnd()<<20); }
    else { u64* q=(u64*)p; for (u32 i=0;i<size/8;++i) q[i]=hrnd()&0xFF; }
}
static void clear_slots(uptr p, u32 size) { if (g.ever) __real_memset((void*)(SLOTS+((p-ARENA)>>3)*64),0,(size_t)((size+7)>>3)*64); }
static void* heap_alloc(u64 size, u64 align, int kind) {
    heap_init();
    if (size>(1ull<<31)) return 0;
    u32 cap=cap_of(size); int c=cls_of(cap); Blk* b=0;
    int reuse=g.on?sim_sh->heap_reuse:HEAP_LIFO, dir=g.on?sim_sh->heap_dir:DIR_UP;
    if (align<=16 && H.fl_head[c]) {
        if (reuse==HEAP_LIFO) { b=H.fl_head[c]; H.fl_head[c]=b->next; if(!b->next) H.fl_tail[c]=0; }
        else if (reuse==HEAP_NEVER && H.total<(96u<<20)) { }
        else if (reuse==HEAP_FIFO || reuse==HEAP_NEVER) { if (H.fl_n[c]>64) { // take the oldest: the tail
                b=H.fl_tail[c]; H.fl_tail[c]=b->prev; if (b->prev) b->prev->next=0; else H.fl_head[c]=0; } }
        else { u64 k=hrnd()%8; b=H.fl_head[c]; while (k-- && b->next) b=b->next;
            if (b->prev) b->prev->next=b->next; else H.fl_head[c]=b->next;
            if (b->next) b->next->prev=b->prev; else H.fl_tail[c]=b->prev; }
        if (b) { H.fl_n[c]--; if (H.fl_head[c]) H.fl_head[c]->prev=0;
            // a stale write into a freed block is a violation
            if (b->magic!=FREED) sim_fatal("heap-corruption","freed block %llu overwritten",(unsigned long long)b->id); }
    }
    if (!b) {
        u64 a=align<16?16:align; u64 need=64+cap+32; uptr user;
        if (dir==DIR_UP || !g.on) { user=(H.up+64+a-1)&~(a-1); H.up=(user+cap+32+15)&~15ull; if (H.up>ARENA+(8ull<<30)) return 0; }
        else if (dir==DIR_DOWN) { if (!H.down) H.down=ARENA+ARENA_SIZE-65536; user=(H.down-cap-32)&~(a-1); H.down=(user-64)&~15ull; }
        else { int z=(int)(hrnd()%8); user=(H.zone[z]+64+(hrnd()%8)*16+a-1)&~(a-1); H.zone[z]=(user+cap+32+15)&~15ull; }
        b=(Blk*)(user-64); b->cap=cap; H.total+=need;
        u8* s=ST+((user-64-ARENA)>>3); __real_memset(s,0xFA,8); __real_memset(ST+((user+cap-ARENA)>>3),0xFA,4);
    }
    b->magic=MAGIC; b->size=(u32)size; b->kind=kind; b->id=H.next_id++; b->align=(u32)align; b->pc[0]=b->pc[1]=b->pc[2]=b->pc[3]=0;
    uptr u=(uptr)b+64;
    set_state(u,(u32)size,cap,1); fill(u,cap,0); clear_slots(u,cap);
    b->prev=0; b->next=H.live; if (H.live) H.live->prev=b; H.live=b;
    if (kind==K_NEW) { H.nlive++; H.blive+=size; if (g.on) { u32 bt[8]; int nb=backtrace_pcs(bt,8); for (int i=3;i<nb && i<7;++i) b->pc[i-3]=bt[i]; hadd(u^(size<<48)); } }
    return (void*)u;
}
static inline int in_arena(uptr a) { return a-ARENA<ARENA_SIZE; }
static void access_range(uptr a, u64 n, int wr, u32 pc, int at);
static void heap_free(void* p, int kind) {
    if (!p) return; uptr u=(uptr)p;
    if (!in_arena(u)) { if (g.on) sim_fatal("invalid-free","pointer %p is not from the heap",p); return; }
    Blk* b=(Blk*)(u-64); u8 s=ST[(u-ARENA)>>3];
    if (s==0xFD) { if (g.on) sim_fatal("double-free","block %llu size %u freed twice",(unsigned long long)b->id,b->size); return; }
    if (b->magic!=MAGIC) { sim_fatal("invalid-free","pointer %p is not a block",p); }
    if (g.multi && b->kind==K_NEW && !me->ignore) access_range(u,b->size>64?64:b->size,1,PC(),0);
    b->magic=FREED; if (b->prev) b->prev->next=b->next; else H.live=b->next; if (b->next) b->next->prev=b->prev;
    if (b->kind==K_NEW) { H.nlive--; H.blive-=b->size; if (g.on) hadd(u); }
    set_state(u,0,b->cap,0); fill(u,b->cap,1);
    if (b->id<H.epoch) return;
    int c=cls_of(b->cap); b->prev=0; b->next=H.fl_head[c]; if (H.fl_head[c]) H.fl_head[c]->prev=b; else H.fl_tail[c]=b; H.fl_head[c]=b; H.fl_n[c]++;
}
static void sync_yield();
static void* do_new(size_t n, size_t al, int nothrow) {
    if (g.on && me) {
        if (g.multi && !me->ignore) sync_yield();
        if (me->armed && !me->apause) { u64 i=me->alloc_idx++; if (i>=me->fail_at && i-me->fail_at<me->fail_n) { me->fired++; hadd(0xBADA110C); if (nothrow) return 0; throw std::bad_alloc(); } }
    }
    void* p=heap_alloc(n,al,K_NEW); if (!p && !nothrow) throw std::bad_alloc(); return p;
}
void* operator new(size_t n) { return do_new(n,16,0); }
void* operator new[](size_t n) { return do_new(n,16,0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n,16,1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n,16,1); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n,(size_t)a,0); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n,(size_t)a,0); }
void operator delete(void* p) noexcept { heap_free(p,K_NEW); }
void operator delete[](void* p) noexcept { heap_free(p,K_NEW); }
void operator delete(void* p, size_t) noexcept { heap_free(p,K_NEW); }
void operator delete[](void* p, size_t) noexcept { heap_free(p,K_NEW); }
void operator delete(void* p, std::align_val_t) noexcept { heap_free(p,K_NEW); }
void operator delete[](void* p, std::align_val_t) noexcept { heap_free(p,K_NEW); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { heap_free(p,K_NEW); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { heap_free(p,K_NEW); }
extern "C" {
void* malloc(size_t n) { return heap_alloc(n,16,K_C); }
void free(void* p) { heap_free(p,K_C); }
void* calloc(size_t a, size_t b) { void* p=heap_alloc(a*b,16,K_C); if (p) __real_memset(p,0,a*b); return p; }
void* realloc(void* p, size_t n) { if (!p) return malloc(n); if (!n) { free(p); return 0; }
    Blk* b=(Blk*)((uptr)p-64); void* q=heap_alloc(n,16,K_C); if (!q) return 0; __real_memcpy(q,p,b->size<n?b->size:n); heap_free(p,K_C); return q; }
void* memalign(size_t a, size_t n) { return heap_alloc(n,a,K_C); }
void* aligned_alloc(size_t a, size_t n) { return heap_alloc(n,a,K_C); }
int posix_memalign(void** o, size_t a, size_t n) { *o=heap_alloc(n,a,K_C); return *o?0:ENOMEM; }
size_t malloc_usable_size(void* p) { return p?((Blk*)((uptr)p-64))->size:0; }

u64 sim_alloc_count() { return me->alloc_idx; }
void sim_alloc_pause(int d) { me->apause+=d; }
void sim_alloc_arm(u64 at, u64 n) { me->alloc_idx=0; me->fail_at=at; me->fail_n=n; me->fired=0; me->armed=1; }
u64 sim_alloc_disarm() { me->armed=0; return me->alloc_idx; }
int sim_alloc_fired() { return me->fired; }
u64 sim_live_blocks() { return H.nlive; }
u64 sim_live_bytes() { return H.blive; }
u64 sim_alloc_mark() { return H.next_id; }
u64 sim_accesses() { return g.acc; }
int sim_live_since(u64 mark, u64* ids, int n, u32* pcs) {
    int k=0; mpfr_free_cache(); for (Blk* b=H.live; b; b=b->next) if (b->id>=mark) {
        if (k<n) { ids[k]=b->id; if (pcs) for (int j=0;j<4;++j) pcs[4*k+j]=b->pc[j]; } ++k; }
    return k; }
u32 sim_block_size(u64 id) { for (Blk* b=H.live; b; b=b->next) if (b->id==id) return b->size; return 0; }
int sim_addr_state(const void* p) { uptr a=(uptr)p; if (!in_arena(a)) return 0; u8 s=ST[(a-ARENA)>>3]; return s==0xFD?2:(s==0xFA||s==0)?3:1; }
void sim_heap_check() { }
}

// ------------------------------------------------------------------------------------------------ happens-before
struct Sync { const void* key; u32 vc[SIM_MAXT]; };
enum { NSYNC=1<<16 };
static Sync* SY;
static Sync* sync_of(const void* k, int create) {
    u64 h=sim_mix((u64)(uptr)k)&(NSYNC-1);
    for (int i=0;i<NSYNC;++i) { Sync* s=&SY[(h+i)&(NSYNC-1)]; if (s->key==k) return s; if (!s->key) { if (!create) return 0; s->key=k; return s; } }
    return &SY[h];
}
static inline void vjoin(u32* a, const u32* b) { for (int i=0;i<SIM_MAXT;++i) if (b[i]>a[i]) a[i]=b[i]; }
static inline void acq(const void* k) { Sync* s=sync_of(k,0); if (s) vjoin(me->vc,s->vc); }
static inline void rel(const void* k) { Sync* s=sync_of(k,1); vjoin(s->vc,me->vc); me->vc[me->id]++; }
extern "C" void sim_acquire(const void* k) { if (g.on) acq(k); }
extern "C" void sim_release(const void* k) { if (g.on) rel(k); }

// ------------------------------------------------------------------------------------------------ scheduler
static void futex_wait(volatile int* f) { while (!__atomic_load_n(f,__ATOMIC_ACQUIRE)) syscall(SYS_futex,f,FUTEX_WAIT_PRIVATE,0,0,0,0); __atomic_store_n(f,0,__ATOMIC_RELAXED); }
static void futex_wake(volatile int* f) { __atomic_store_n(f,1,__ATOMIC_RELEASE); syscall(SYS_futex,f,FUTEX_WAKE_PRIVATE,1,0,0,0); }
static void plan_next() {
    switch (sim_sh->policy) {
        case POL_EXPLICIT: while (g.ex_i<sim_sh->nexplicit && sim_sh->explicit_sw[g.ex_i].event<=g.event) ++g.ex_i;
            g.next_ev = g.ex_i<sim_sh->nexplicit ? sim_sh->explicit_sw[g.ex_i].event : ~0ull; break;
        case POL_RANDOM: case POL_STALL: { u64 q=sim_sh->quantum; g.next_ev=g.event+1+rnd()%(2*q); break; }
        case POL_PCT: g.next_ev = g.pct_i<g.pct_n ? g.pct_points[g.pct_i] : ~0ull; break;
        default: g.next_ev=~0ull;
    }
}
static int runnable(int out[]) { int n=0; for (int i=0;i<SIM_MAXT;++i) if (thr[i].state==1) out[n++]=i; return n; }
static void record(int tid) {
    u32 n=sim_sh->nswitches; if (n<SIM_MAX_SWITCHES) { sim_sh->sw[n].event=g.event; sim_sh->sw[n].tid=(u32)tid; sim_sh->nswitches=n+1; } else sim_sh->truncated_switches=1;
    hadd(g.event*31+tid); g.ihash=(g.ihash^(((u64)me->id<<8|tid)+me->steps))*0x100000001B3ull; 
}
static void give(int tid, int wait) {
    Thr* t=&thr[tid]; Thr* self=me; g.cur=t; self->steps=0; futex_wake(&t->go); if (wait) futex_wait(&self->go); }
static int choose_free(int runn[], int n) { // choice among runnable threads when the current one cannot go on (or is preempted)
    switch (sim_sh->policy) {
        case POL_PCT: { int b=runn[0]; for (int i=1;i<n;++i) if (thr[runn[i]].prio>thr[b].prio) b=runn[i]; return b; }
        case POL_SEQ: case POL_EXPLICIT: return runn[0];
        case POL_STALL: { int c[SIM_MAXT],m=0; for (int i=0;i<n;++i) if (runn[i]!=g.victim) c[m++]=runn[i]; if (m) return c[rnd()%m]; return runn[0]; }
        default: return runn[rnd()%n];
    }
}
static void preempt() { // voluntary decision at event g.event; may switch
    int r[SIM_MAXT]; int n=runnable(r); int t=-1;
    if (sim_sh->policy==POL_EXPLICIT) {
        if (g.ex_i<sim_sh->nexplicit && sim_sh->explicit_sw[g.ex_i].event==g.event) { int k=(int)sim_sh->explicit_sw[g.ex_i].tid; if (k<SIM_MAXT && thr[k].state==1) t=k; }
    } else if (sim_sh->policy==POL_PCT) {
        while (g.pct_i<g.pct_n && g.pct_points[g.pct_i]<=g.event) { me->prio=(u32)(64-g.pct_i); ++g.pct_i; }
        t=choose_free(r,n);
    } else {
        if (sim_sh->policy==POL_STALL && g.event>=g.victim_until) { g.victim=r[rnd()%n]; g.victim_until=g.event+sim_sh->quantum*(4+rnd()%64); }
        int o[SIM_MAXT],m=0; for (int i=0;i<n;++i) if (r[i]!=me->id) o[m++]=r[i];
        if (m) { t=choose_free(o,m); if (sim_sh->policy==POL_STALL && t==g.victim) t=-1; }
    }
    plan_next();
    if (t>=0 && t!=me->id) { record(t); give(t,1); }
}
static inline void tick() { ++g.event; ++me->steps; if (UNLIKELY(g.event>=g.ev_budget)) sim_fatal("no-progress","event budget %llu exhausted",(unsigned long long)g.ev_budget); }
static inline void yield_access() { tick(); if (UNLIKELY(g.event>=g.next_ev)) preempt(); }
static void sync_yield() {
    if (!g.multi||!g.on||me->ignore) return; tick(); sim_sh->sync_ops++;
    int p=sim_sh->policy; if (g.event>=g.next_ev || (p==POL_PCT) || ((p==POL_SYNC||p==POL_CONFLICT) && (rnd()&1023)<sim_sh->prob1024)) preempt(); }
extern "C" void sim_yield() { sync_yield(); }
static void forced(int wait) { // the current thread cannot go on
    tick(); int r[SIM_MAXT]; int n=runnable(r);
    if (!n) { // fire the earliest deadline
        int b=-1; for (int i=0;i<SIM_MAXT;++i) if (thr[i].state==2 && thr[i].deadline && (b<0||thr[i].deadline<thr[b].deadline)) b=i;
        if (b<0) { char buf[256]; int o=0; for (int i=0;i<SIM_MAXT;++i) if (thr[i].state==2) o+=snprintf(buf+o,sizeof(buf)-o," t%d@%p",i,thr[i].wait_obj);
            sim_fatal("deadlock","no thread can run; blocked:%s",buf); }
        if (g.mono<thr[b].deadline) { g.wall+=thr[b].deadline-g.mono; g.mono=thr[b].deadline; }
        thr[b].state=1; thr[b].timed_out=1; thr[b].deadline=0; r[0]=b; n=1; }
    int t;
    if (sim_sh->policy==POL_EXPLICIT) { t=r[0]; while (g.ex_i<sim_sh->nexplicit && sim_sh->explicit_sw[g.ex_i].event<g.event) ++g.ex_i;
        if (g.ex_i<sim_sh->nexplicit && sim_sh->explicit_sw[g.ex_i].event==g.event) { int k=(int)sim_sh->explicit_sw[g.ex_i].tid; if (k<SIM_MAXT && thr[k].state==1) t=k; } }
    else t=choose_free(r,n);
    plan_next();
    if (t!=r[0]) record(t); else { hadd(g.event*31+t); g.ihash=(g.ihash^(((u64)me->id<<8|t)+me->steps))*0x100000001B3ull; }
    if (t==me->id) return;
    give(t,wait);
}
static void block_on(const void* o, u64 deadline) { me->wait_obj=o; me->state=2; me->wait_seq=++g.wait_seq; me->deadline=deadline; me->timed_out=0; forced(1); }
static int wake_one(const void* o) { int b=-1; for (int i=0;i<SIM_MAXT;++i) if (thr[i].state==2 && thr[i].wait_obj==o && (b<0||thr[i].wait_seq<thr[b].wait_seq)) b=i;
    if (b>=0) { thr[b].state=1; thr[b].deadline=0; thr[b].wait_obj=0; } return b>=0; }
static void wake_all(const void* o) { while (wake_one(o)) { } }
extern "C" void sim_block(const void* o) { block_on(o,0); }
extern "C" void sim_wake(const void* o) { wake_all(o); }

typedef int (*create_fn)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
static create_fn real_create; static int (*real_join)(pthread_t,void**);
static void resolve() { if (!real_create) { real_create=(create_fn)dlsym(RTLD_NEXT,"pthread_create"); real_join=(int(*)(pthread_t,void**))dlsym(RTLD_NEXT,"pthread_join"); } }
static void set_altstack(int id);
static void* thread_main(void* a) {
    me=(Thr*)a; set_altstack(me->id); futex_wait(&me->go);
    me->ret=me->fn(me->arg);
    // The host thread waits for the real exit (thread-local destructors run before anything else does) and then schedules.
    me->ignore=1; g.exiting=me; futex_wake(&g.reap);
    return 0;
}
static void reap_one() { // on the host thread
    Thr* t=g.exiting; real_join(t->pt,0); g.exiting=0;
    me=t; t->vc[t->id]++; t->state=3; g.nlive--; wake_all(t); if (g.nlive==1) g.multi=0;
    t->ignore=0; forced(0); me=0;
}
static void* map_stack(int id) {
    char* p=(char*)(STACKS+(uptr)id*STACK_SIZE);
    void* q=mmap(p,STACK_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
    if (q!=p) _exit(97);
    // seeded contents, so that nothing depends on what a fresh stack holds
    u64 v=sim_mix(sim_sh->heap_seed+77*id); u64* w=(u64*)(p+STACK_SIZE-(512<<10)); size_t n=(512<<10)/8-1024;
    if (sim_sh->heap_fill) for (size_t i=0;i<n;++i) w[i]=v+i*0x0101010101010101ull;
    return p;
}
extern "C" int sim_thread_create(void* (*fn)(void*), void* arg) {
    resolve(); int id=-1; for (int i=1;i<SIM_MAXT;++i) if (thr[i].state==0) { id=i; break; }
    if (id<0) return -1;
    Thr* t=&thr[id]; u32 clk=t->vc[id]; t->id=id; t->go=0; t->fn=fn; t->arg=arg; t->joined=0; t->ignore=0; t->armed=0; t->steps=0; t->wait_obj=0; t->deadline=0;
    __real_memcpy(t->vc,me->vc,sizeof t->vc); t->vc[id]=(clk>me->vc[id]?clk:me->vc[id])+1; me->vc[me->id]++;
    t->prio=(u32)(1000+rnd()%100000); t->state=1; g.nlive++; g.multi=1; g.ever=1; sim_sh->threads_created++; if ((u32)g.nlive>sim_sh->max_live) sim_sh->max_live=g.nlive;
    void* st=map_stack(id); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,st,STACK_SIZE);
    if (real_create(&t->pt,&at,thread_main,t)) { t->state=0; g.nlive--; return -1; }
    pthread_attr_destroy(&at);
    sync_yield();
    return id;
}
extern "C" void sim_thread_join(int id) {
    Thr* t=&thr[id]; sync_yield();
    while (t->state!=3) { me->wait_obj=t; me->state=2; me->deadline=0; forced(1); }
    vjoin(me->vc,t->vc); t->state=0;
}
extern "C" int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    resolve(); if (!g.on) return real_create(out,at,fn,arg);
    int id=sim_thread_create(fn,arg); if (id<0) return EAGAIN; *out=(pthread_t)(0xABCD0000u+id); return 0; }
extern "C" int pthread_join(pthread_t t, void** ret) { resolve(); if (!g.on) return real_join(t,ret);
    int id=(int)(t&0xFFFF); void* r=thr[id].ret; sim_thread_join(id); if (ret) *ret=r; return 0; }
extern "C" int pthread_detach(pthread_t t) { return 0; }

// ------------------------------------------------------------------------------------------------ race detector
static Slot* slots_for(uptr a) { // granule address (8-aligned)
    if (LIKELY(in_arena(a))) return (Slot*)(SLOTS+((a-ARENA)>>3)*64);
    if (a-g.dlo<g.dhi-g.dlo) return (Slot*)(DSLOTS+((a-g.dlo)>>3)*64);
    if (a-STACKS<STACK_SIZE && me->id!=0) return (Slot*)(SSLOTS+((a-STACKS)>>3)*64);
    return 0;
}
static struct { u32 a,b; } seen_races[64]; static int nseen;
static void report_race(uptr a, const Slot& s, int wr, u32 pc) {
    u32 x=s.pc, y=pc; if (x>y) { u32 t=x; x=y; y=t; }
    for (int i=0;i<nseen;++i) if (seen_races[i].a==x && seen_races[i].b==y) return;
    if (nseen>=64) return; seen_races[nseen].a=x; seen_races[nseen].b=y; ++nseen;
    const char* where=in_arena(a)?"heap":(a-STACKS<STACK_SIZE*SIM_MAXT?"stack":"global");
    Blk* b=0; u64 off=0; (void)b;
    sim_violation("race","pc1=%x pc2=%x %s t%d then %s t%d on %s %lx off=%llu",s.pc,pc,(s.flags&1)?"write":"read",s.tid,wr?"write":"read",me->id,where,(unsigned long)a,(unsigned long long)off);
}
static inline int check_granule(uptr gr, u8 mask, int wr, u32 pc, int at) {
    Slot* s=slots_for(gr); if (!s) return 0;
    Thr* t=me; int conflict=0, put=-1, old=-1;
    for (int i=0;i<4;++i) {
        Slot& q=s[i];
        if (!q.mask) { if (put<0) put=i; continue; }
        if (q.tid==t->id) { if ((q.mask&~mask)==0 && (wr || !(q.flags&1)) ) put=i; else if (q.mask==mask && (q.flags&1) && q.clk==t->vc[t->id] && !(q.flags&2)==!at) { put=-2; } continue; }
        if ((q.mask&mask)) {
            if (wr || (q.flags&1)) conflict=1;
            if ((wr || (q.flags&1)) && !((q.flags&2)&&at)) {
                if (q.clk>t->vc[q.tid] && sim_sh->race_detect) { report_race(gr,q,wr,pc); }
            }
        }
        if (q.clk<=t->vc[q.tid]) old=i;   // ordered before us: may be replaced
    }
    if (put==-2) return conflict;
    if (put<0) put=old>=0?old:(int)(g.event&3);
    Slot& q=s[put]; q.clk=t->vc[t->id]; q.pc=pc; q.tid=(u8)t->id; q.mask=mask; q.flags=(u8)((wr?1:0)|(at?2:0));
    return conflict;
}
static void conflict_yield() { sim_sh->conflicts++; if (sim_sh->policy==POL_CONFLICT && (rnd()&1023)<sim_sh->prob1024) preempt(); }
static void bad_access(uptr a, unsigned n, int wr, u32 pc) {
    u8 s=ST[(a-ARENA)>>3]; const char* c=s==0xFD?"use-after-free":"heap-overflow";
    sim_fatal(c,"pc1=%x %s of %u bytes",pc,wr?"write":"read",n);
}
static inline void heap_ok(uptr a, unsigned n, int wr, u32 pc) {
    u8 s=ST[(a-ARENA)>>3]; unsigned o=(unsigned)(a&7);
    if (LIKELY(s==8 && o+n<=8)) return;
    unsigned left=n; uptr p=a;
    while (left) { unsigned oo=(unsigned)(p&7), k=8-oo<left?8-oo:left; u8 q=ST[(p-ARENA)>>3]; if (q>8||oo+k>q) { bad_access(p,n,wr,pc); return; } p+=k; left-=k; }
}
static inline void access1(uptr a, unsigned n, int wr, u32 pc, int at) {
    if (UNLIKELY(!g.on)) return;
    Thr* t=me; if (UNLIKELY(!t||t->ignore)) return;
    int heap=in_arena(a);
    if (heap) { heap_ok(a,n,wr,pc); }
    if (UNLIKELY(++g.acc>=g.acc_budget)) sim_fatal("no-progress","access budget %llu exhausted",(unsigned long long)g.acc_budget);
    if (!g.multi) { if (heap && a>=SIMHEAP) g.hash=(g.hash^a)*0x9E3779B97F4A7C15ull; return; }
    if (!heap) { uptr so=a-STACKS; if (so<STACK_SIZE*SIM_MAXT) { if (so>=STACK_SIZE || t->id==0) return; } else if (!(a-g.dlo<g.dhi-g.dlo)) return; }
    if (a<ARENA||a>=SIMHEAP) g.hash=(g.hash^(a+t->id))*0x9E3779B97F4A7C15ull; g.hash^=g.hash>>31;
    yield_access();
    unsigned o=(unsigned)(a&7); int c;
    if (LIKELY(o+n<=8)) c=check_granule(a&~7ull,(u8)(((1u<<n)-1)<<o),wr,pc,at);
    else { c=0; unsigned left=n; uptr p=a; while (left) { unsigned oo=(unsigned)(p&7), k=8-oo<left?8-oo:left; c|=check_granule(p&~7ull,(u8)(((1u<<k)-1)<<oo),wr,pc,at); p+=k; left-=k; } }
    if (c) conflict_yield();
}
static void access_range(uptr a, u64 n, int wr, u32 pc, int at) {
    if (!g.on||!n||!me||me->ignore) return;
    u64 cap=n>65536?65536:n; // very long ranges: the first 64 kB
    if (!g.multi) { if (in_arena(a)) { heap_ok(a,1,wr,pc); heap_ok(a+n-1,1,wr,pc); } return; }
    while (cap) { unsigned k=8-(unsigned)(a&7); if (k>cap) k=(unsigned)cap; access1(a,k,wr,pc,at); a+=k; cap-=k; }
}
#define R(n) extern "C" void __tsan_read##n(void* p) { access1((uptr)p,n,0,PC(),0); } extern "C" void __tsan_unaligned_read##n(void* p) { access1((uptr)p,n,0,PC(),0); } extern "C" void __tsan_volatile_read##n(void* p) { access1((uptr)p,n,0,PC(),0); }
#define W(n) extern "C" void __tsan_write##n(void* p) { access1((uptr)p,n,1,PC(),0); } extern "C" void __tsan_unaligned_write##n(void* p) { access1((uptr)p,n,1,PC(),0); } extern "C" void __tsan_volatile_write##n(void* p) { access1((uptr)p,n,1,PC(),0); }
R(1) R(2) R(4) R(8) R(16) W(1) W(2) W(4) W(8) W(16)
extern "C" {
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
void __tsan_read_range(void* p, long n) { access_range((uptr)p,(u64)n,0,PC(),0); }
void __tsan_write_range(void* p, long n) { access_range((uptr)p,(u64)n,1,PC(),0); }
void __tsan_vptr_update(void** p, void* v) { if (*p!=v) access1((uptr)p,8,1,PC(),0); else access1((uptr)p,8,0,PC(),0); }
void __tsan_vptr_read(void** p) { access1((uptr)p,8,0,PC(),0); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { access_range((uptr)s,n,0,PC(),0); access_range((uptr)d,n,1,PC(),0); } return __real_memcpy(d,s,n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { access_range((uptr)s,n,0,PC(),0); access_range((uptr)d,n,1,PC(),0); } return __real_memmove(d,s,n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) access_range((uptr)d,n,1,PC(),0); return __real_memset(d,c,n); }
// annotation for uninstrumented library calls (GMP, MPFR)
void sim_annotate(const void* p, size_t n, int wr) { access_range((uptr)p,n,wr,PC(),0); }
void sim_mp_access(const void* p, unsigned long n, int wr, unsigned pc) { access_range((uptr)p,n,wr,pc,0); }
}
// atomics: executed sequentially consistently; ordering decides the happens-before edges
static inline int is_acq(int mo) { return mo==1||mo==2||mo==4||mo==5; }
static inline int is_rel(int mo) { return mo==3||mo==4||mo==5; }
static inline void at_pre(const volatile void* p, unsigned n, int wr, u32 pc) { if (g.on&&me&&!me->ignore) { access1((uptr)p,n,wr,pc,1); sync_yield(); } }
#define ON (g.on&&me&&!me->ignore&&g.multi)
#define AT(bits,T) \
extern "C" T __tsan_atomic##bits##_load(const volatile T* a, int mo) { at_pre(a,bits/8,0,PC()); T v=__atomic_load_n(a,5); if (ON&&is_acq(mo)) acq((const void*)a); return v; } \
extern "C" void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { at_pre(a,bits/8,1,PC()); if (ON&&is_rel(mo)) rel((const void*)a); __atomic_store_n(a,v,5); } \
extern "C" T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { at_pre(a,bits/8,1,PC()); if (ON&&is_acq(mo)) acq((const void*)a); if (ON&&is_rel(mo)) rel((const void*)a); return __atomic_exchange_n(a,v,5); } \
extern "C" T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { at_pre(a,bits/8,1,PC()); \
    if (ON) { if (bits==32 && mo==4 && v==(T)1) { } else if (bits==32 && mo==4 && v==(T)-1) { rel((const void*)a); if (*a==1) acq((const void*)a); } \
              else { if (is_acq(mo)) acq((const void*)a); if (is_rel(mo)) rel((const void*)a); } } return __atomic_fetch_add(a,v,5); } \
extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { at_pre(a,bits/8,1,PC()); if (ON) { if (is_acq(mo)) acq((const void*)a); if (is_rel(mo)) rel((const void*)a); } return __atomic_fetch_sub(a,v,5); } \
extern "C" T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { at_pre(a,bits/8,1,PC()); if (ON) { if (is_acq(mo)) acq((const void*)a); if (is_rel(mo)) rel((const void*)a); } return __atomic_fetch_and(a,v,5); } \
extern "C" T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { at_pre(a,bits/8,1,PC()); if (ON) { if (is_acq(mo)) acq((const void*)a); if (is_rel(mo)) rel((const void*)a); } return __atomic_fetch_or(a,v,5); } \
extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { at_pre(a,bits/8,1,PC()); if (ON) { if (is_acq(mo)) acq((const void*)a); if (is_rel(mo)) rel((const void*)a); } return __atomic_fetch_xor(a,v,5); } \
extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { at_pre(a,bits/8,1,PC()); if (ON) { if (is_acq(mo)) acq((const void*)a); if (is_rel(mo)) rel((const void*)a); } return __atomic_fetch_nand(a,v,5); } \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { at_pre(a,bits/8,1,PC()); int ok=__atomic_compare_exchange_n(a,c,v,0,5,5); \
    if (ON) { int m=ok?mo:fmo; if (is_acq(m)) acq((const void*)a); if (ok&&is_rel(m)) rel((const void*)a); } return ok; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { at_pre(a,bits/8,1,PC()); int ok=__atomic_compare_exchange_n(a,c,v,0,5,5); \
    if (ON) { int m=ok?mo:fmo; if (is_acq(m)) acq((const void*)a); if (ok&&is_rel(m)) rel((const void*)a); } return ok; } \
extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { at_pre(a,bits/8,1,PC()); int ok=__atomic_compare_exchange_n(a,&c,v,0,5,5); \
    if (ON) { int m=ok?mo:fmo; if (is_acq(m)) acq((const void*)a); if (ok&&is_rel(m)) rel((const void*)a); } return c; }
AT(8,u8) AT(16,uint16_t) AT(32,u32) AT(64,u64)
extern "C" void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); sync_yield(); }
extern "C" void __tsan_atomic_signal_fence(int) { }

// ------------------------------------------------------------------------------------------------ pthread objects
extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { __real_memset(m,0,sizeof *m); if (a) m->__data.__kind=*(const int*)a&3; return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!g.on||!me) return 0;
    int self=me->id+1; auto& d=m->__data;
    if (d.__lock && d.__owner==self) { if (d.__kind==PTHREAD_MUTEX_RECURSIVE) { d.__count++; return 0; } sim_fatal("deadlock","thread %d locks a mutex that it holds",me->id); }
    sync_yield();
    while (d.__lock) block_on(m,0);
    d.__lock=1; d.__owner=self; d.__count=1; if (g.multi) acq(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!g.on||!me) return 0; sync_yield(); auto& d=m->__data; int self=me->id+1;
    if (d.__lock) { if (d.__owner==self && d.__kind==PTHREAD_MUTEX_RECURSIVE) { d.__count++; return 0; } return EBUSY; }
    d.__lock=1; d.__owner=self; d.__count=1; if (g.multi) acq(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!g.on||!me) return 0; auto& d=m->__data;
    if (!d.__lock || d.__owner!=me->id+1) { if (d.__lock) sim_violation("bad-unlock","mutex unlocked by a thread that does not hold it"); }
    if (d.__count>1 && d.__kind==PTHREAD_MUTEX_RECURSIVE) { d.__count--; return 0; }
    if (g.multi) rel(m); d.__lock=0; d.__owner=0; d.__count=0; wake_all(m); sync_yield(); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) { __real_memset(m,0,sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!g.on||!me) return 0; sync_yield(); auto& d=m->__data; while (d.__writers) block_on(m,0); d.__readers++; if (g.multi) acq(m); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!g.on||!me) return 0; sync_yield(); auto& d=m->__data; if (d.__writers) return EBUSY; d.__readers++; if (g.multi) acq(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!g.on||!me) return 0; sync_yield(); auto& d=m->__data; while (d.__writers||d.__readers) block_on(m,0); d.__writers=me->id+1; if (g.multi) { acq(m); acq((char*)m+1); } return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!g.on||!me) return 0; sync_yield(); auto& d=m->__data; if (d.__writers||d.__readers) return EBUSY; d.__writers=me->id+1; if (g.multi) { acq(m); acq((char*)m+1); } return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!g.on||!me) return 0; auto& d=m->__data;
    if (d.__writers) { if (g.multi) rel(m); d.__writers=0; } else { if (g.multi) rel((char*)m+1); if (d.__readers) d.__readers--; } wake_all(m); sync_yield(); return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { __real_memset(c,0,sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 dl) {
    if (!g.on||!me) return 0; auto& d=m->__data; if (g.multi) rel(m); d.__lock=0; d.__owner=0; d.__count=0; wake_all(m);
    block_on(c,dl); int to=me->timed_out; if (g.multi) acq(c); while (d.__lock) block_on(m,0); d.__lock=1; d.__owner=me->id+1; d.__count=1; if (g.multi) acq(m); return to?ETIMEDOUT:0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c,m,0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { u64 t=(u64)ts->tv_sec*1000000000ull+ts->tv_nsec; u64 d=t>g.wall?t-g.wall:1; return cond_wait(c,m,g.mono+d); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { u64 t=(u64)ts->tv_sec*1000000000ull+ts->tv_nsec; u64 now=k==CLOCK_REALTIME?g.wall:g.mono; u64 d=t>now?t-now:1; return cond_wait(c,m,g.mono+d); }
int pthread_cond_signal(pthread_cond_t* c) { if (!g.on||!me) return 0; if (g.multi) rel(c); wake_one(c); sync_yield(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!g.on||!me) return 0; if (g.multi) rel(c); wake_all(c); sync_yield(); return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (*o==2) { if (ON) acq(o); return 0; }
    if (!g.on||!me) { *o=1; f(); *o=2; return 0; }
    sync_yield();
    while (*o==1) block_on(o,0);
    if (*o==2) { if (g.multi) acq(o); return 0; }
    *o=1; f(); *o=2; if (g.multi) rel(o); wake_all(o); return 0; }
int __cxa_guard_acquire(u64* gu) { u8* b=(u8*)gu;
    if (b[0]) { if (ON) acq(gu); return 0; }
    if (!g.on||!me) { b[1]=1; return 1; }
    sync_yield();
    while (b[1]) block_on(gu,0);
    if (b[0]) { if (g.multi) acq(gu); return 0; }
    b[1]=1; return 1; }
void __cxa_guard_release(u64* gu) { u8* b=(u8*)gu; if (g.on&&me&&g.multi) rel(gu); b[1]=0; b[0]=1; if (g.on&&me) { wake_all(gu); sync_yield(); } }
void __cxa_guard_abort(u64* gu) { u8* b=(u8*)gu; b[1]=0; if (g.on&&me) wake_all(gu); }
}

// ------------------------------------------------------------------------------------------------ clock, randomness
extern "C" {
void sim_clock_set(u64 w, u64 m) { g.wall=w; g.mono=m; }
void sim_clock_advance(u64 ns) { g.wall+=ns; g.mono+=ns; }
void sim_clock_jump_wall(int64_t ns) { g.wall=(u64)((int64_t)g.wall+ns); }
int clock_gettime(clockid_t k, struct timespec* ts) noexcept {
    if (!g.on) return (int)syscall(SYS_clock_gettime,k,ts);
    g.wall+=1000; g.mono+=1000; u64 t=(k==CLOCK_REALTIME||k==CLOCK_REALTIME_COARSE)?g.wall:g.mono;
    ts->tv_sec=(time_t)(t/1000000000ull); ts->tv_nsec=(long)(t%1000000000ull); return 0; }
int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return 0; }
time_t time(time_t* o) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); if (o) *o=ts.tv_sec; return ts.tv_sec; }
int nanosleep(const struct timespec* d, struct timespec*) { u64 ns=(u64)d->tv_sec*1000000000ull+d->tv_nsec; if (!g.on||!me) return 0;
    if (!g.multi) { sim_clock_advance(ns); return 0; } static char sleepers; block_on(&sleepers+0,g.mono+ns+1); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec* d, struct timespec* r) { return nanosleep(d,r); }
static u64 rand_state=12345;
int rand(void) noexcept { rand_state=rand_state*6364136223846793005ull+1442695040888963407ull; return (int)(rand_state>>33); }
void srand(unsigned s) noexcept { rand_state=s; }
}

// ------------------------------------------------------------------------------------------------ crashes
static char altstacks[SIM_MAXT][65536];
static void set_altstack(int id) { stack_t ss; ss.ss_sp=altstacks[id]; ss.ss_size=sizeof altstacks[0]; ss.ss_flags=0; sigaltstack(&ss,0); }
static void on_signal(int sig, siginfo_t* si, void* uc) {
    static int once; if (once++) _exit(98);
    g.on=0; ucontext_t* c=(ucontext_t*)uc; uptr rip=c->uc_mcontext.gregs[REG_RIP]; uptr fp=c->uc_mcontext.gregs[REG_RBP];
    char bt[256]; int o=0; bt[0]=0; u32 pcs[12]; int n=0;
    if (rip>=(uptr)__executable_start&&rip<(uptr)etext) pcs[n++]=(u32)rip;
    if (me) { uptr lo=STACKS+(uptr)me->id*STACK_SIZE, hi=lo+STACK_SIZE; uptr sp=c->uc_mcontext.gregs[REG_RSP];
        if (fp>=lo&&fp+16<=hi) { while (n<12 && fp>=lo && fp+16<=hi && !(fp&7)) { uptr pc=((uptr*)fp)[1]; if (pc>=(uptr)__executable_start&&pc<(uptr)etext) pcs[n++]=(u32)pc; uptr nf=((uptr*)fp)[0]; if (nf<=fp) break; fp=nf; } }
        else for (uptr p=sp&~7ull; n<12 && p<hi && p<sp+8192; p+=8) { uptr pc=*(uptr*)p; if (pc>=(uptr)__executable_start&&pc<(uptr)etext) pcs[n++]=(u32)pc; } }
    for (int i=0;i<n&&o<220;++i) o+=snprintf(bt+o,sizeof(bt)-o,"%x,",pcs[i]);
    sim_sh->nviol++;
    sim_report("violation crash at=%llu bt=%s signal %d (%s)",(unsigned long long)g.event,bt,sig,sig==SIGSEGV?"SIGSEGV":sig==SIGABRT?"SIGABRT":sig==SIGFPE?"SIGFPE":sig==SIGILL?"SIGILL":"other");
    finish_stats(); sim_sh->finished=2; _exit(0);
}

// ------------------------------------------------------------------------------------------------ run
extern "C" void sim_begin() {
    g.event=0; g.acc=0; g.hash=0xcbf29ce484222325ull; g.ihash=0xcbf29ce484222325ull; g.rng=sim_mix(sim_sh->sched_seed);
    H.rng=sim_mix(sim_sh->heap_seed); g.ev_budget=sim_sh->event_budget?sim_sh->event_budget:~0ull; g.acc_budget=sim_sh->access_budget?sim_sh->access_budget:~0ull;
    g.victim=-1; g.ex_i=0;
    g.pct_n=0; if (sim_sh->policy==POL_PCT) { g.pct_n=sim_sh->pct_depth>63?63:sim_sh->pct_depth; u64 L=sim_sh->pct_len?sim_sh->pct_len:100000;
        for (int i=0;i<g.pct_n;++i) g.pct_points[i]=1+rnd()%L;
        for (int i=0;i<g.pct_n;++i) for (int j=i+1;j<g.pct_n;++j) if (g.pct_points[j]<g.pct_points[i]) { u64 t=g.pct_points[i]; g.pct_points[i]=g.pct_points[j]; g.pct_points[j]=t; } }
    g.wall=1700000000ull*1000000000ull; g.mono=1000ull*1000000000ull; rand_state=sim_mix(sim_sh->heap_seed^0x55);
    // From here on the heap is a function of the plan only: nothing of the host's free lists is reused.
    for (int i=0;i<96;++i) { H.fl_head[i]=H.fl_tail[i]=0; H.fl_n[i]=0; }
    H.up=SIMHEAP; H.epoch=H.next_id=1ull<<32; H.total=0;
    nseen=0; plan_next(); g.on=1;
}
struct MainArg { void (*fn)(void*); void* arg; };
static void* main_thread(void* a) {
    MainArg* m=(MainArg*)a; me=&thr[0]; set_altstack(0); g.cur=me; g.nlive=1; g.multi=0; me->state=1; me->id=0; me->vc[0]=1; me->prio=500;
    sim_begin(); m->fn(m->arg); g.on=0; finish_stats(); if (!sim_sh->finished) sim_sh->finished=1; g.all_done=1; futex_wake(&g.reap); return 0; }
extern "C" void sim_run_main(void (*fn)(void*), void* arg) {
    resolve();
    // all threads of a run on one processor: exactly one of them runs, and handing over is cheapest there
    if (sim_cpu>=0) { cpu_set_t all; if (!sched_getaffinity(0,sizeof all,&all)) { int n=CPU_COUNT(&all), k=n?sim_cpu%n:0; for (int i=0;i<CPU_SETSIZE;++i) if (CPU_ISSET(i,&all) && k--==0) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(i,&cs); sched_setaffinity(0,sizeof cs,&cs); break; } } }
    xmap(SLOTS,ARENA_SIZE*8); g.dlo=(uptr)__data_start&~7ull; g.dhi=((uptr)_end+7)&~7ull; xmap(DSLOTS,((g.dhi-g.dlo)*8+4095)&~4095ull); xmap(SSLOTS,STACK_SIZE*8);
    SY=(Sync*)mmap(0,sizeof(Sync)*NSYNC,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    for (int i=0;i<SIM_MAXT;++i) { thr[i].id=i; thr[i].vc[i]=1; }
    struct sigaction sa; __real_memset(&sa,0,sizeof sa); sa.sa_sigaction=on_signal; sa.sa_flags=SA_SIGINFO|SA_ONSTACK;
    int sigs[]={SIGSEGV,SIGABRT,SIGFPE,SIGILL,SIGBUS}; for (int s: sigs) sigaction(s,&sa,0);
    MainArg m={fn,arg}; pthread_t pt; pthread_attr_t at; void* st=map_stack(0); pthread_attr_init(&at); pthread_attr_setstack(&at,st,STACK_SIZE);
    if (real_create(&pt,&at,main_thread,&m)) _exit(97);
    for (;;) { futex_wait(&g.reap); if (g.exiting) reap_one(); if (g.all_done) break; }
    real_join(pt,0);
}
