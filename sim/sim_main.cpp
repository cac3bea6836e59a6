// Host process: forks one child per simulated run, collects what it reports.
#include "harness.hpp"
#include "betterthreads/workload.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
namespace sim {
static Scenario* all=nullptr;
Scenario::Scenario(const char* n, void (*g)(Rng&,Plan&,bool), void (*r)(Plan const&)) : name(n), generate(g), run(r), next(all) { all=this; }
std::string Plan::text() const {
    std::ostringstream o; o<<"scenario "<<scenario<<"\nseed "<<seed<<"\n";
    for (auto& p : params) o<<"param "<<p.first<<" "<<p.second<<"\n";
    for (auto& v : ops) { o<<"op"; for (auto& s : v) o<<" "<<s; o<<"\n"; }
    for (auto& f : faults) o<<"fault "<<f.first<<" "<<f.second<<"\n";
    for (auto& s : switches) o<<"switch "<<s.first<<" "<<s.second<<"\n";
    return o.str();
}
Plan Plan::parse(std::string const& t) {
    Plan p; std::istringstream in(t); std::string line;
    while (std::getline(in,line)) { std::istringstream l(line); std::string k; l>>k;
        if (k=="scenario") l>>p.scenario; else if (k=="seed") l>>p.seed;
        else if (k=="param") { std::string n; long v; l>>n>>v; p.params[n]=v; }
        else if (k=="op") { std::vector<std::string> v; std::string w; while (l>>w) v.push_back(w); p.ops.push_back(v); }
        else if (k=="fault") { std::string n; long v; l>>n>>v; p.faults.push_back({n,v}); }
        else if (k=="switch") { u64 e; u32 d; l>>e>>d; p.switches.push_back({e,d}); } }
    return p;
}
void gen_env(Rng& r, Plan& p, int parts) {
    if (parts&ENV_HEAP) { p.set("heap_reuse",r.below(4)); p.set("heap_dir",r.below(3)); p.set("heap_fill",1+r.below(4)); p.set("heap_seed",r.below(1u<<30)); }
    if (parts&ENV_SCHED) {
        p.set("sched_seed",r.below(1u<<30)); static const int pol[]={POL_RANDOM,POL_RANDOM,POL_SYNC,POL_PCT,POL_CONFLICT,POL_CONFLICT,POL_STALL,POL_SEQ};
        p.set("policy",pol[r.below(8)]); static const long q[]={7,50,300,2000,10000,60000}; p.set("quantum",q[r.below(6)]);
        static const long pr[]={10,60,200,512}; p.set("prob1024",pr[r.below(4)]); p.set("pct_depth",r.range(1,8)); static const long pl[]={2000,50000,1000000,20000000}; p.set("pct_len",pl[r.below(4)]); }
}
u64 hash_str(std::string const& s) { u64 h=0xcbf29ce484222325ull; for (unsigned char c : s) h=(h^c)*0x100000001B3ull; return h; }
static struct { char kind[48]; long n; } counters[128]; static int ncounters;
static u64 states[4096]; static int nstates;
void count(const char* kind, long n) {
    sim_ignore_begin();
    int i=0; for (;i<ncounters;++i) if (!strcmp(counters[i].kind,kind)) break;
    if (i==ncounters && i<127) { strncpy(counters[i].kind,kind,47); ncounters++; }
    counters[i].n+=n; sim_ignore_end(); }
void state(u64 h) { sim_ignore_begin(); bool seen=false; for (int i=0;i<nstates;++i) if (states[i]==h) { seen=true; break; } if (!seen && nstates<4096) states[nstates++]=h; sim_hash_add(h); sim_ignore_end(); }
struct Body { std::function<void()> f; std::string err; };
static void* body_main(void* a) { Body* b=(Body*)a; try { b->f(); } catch (std::exception const& e) { b->err=std::string("exception: ")+e.what(); if (b->err.size()<2) b->err="exception"; } catch (...) { b->err="exception"; } return nullptr; }
std::vector<std::string> run_threads(std::vector<std::function<void()>> bodies) {
    std::vector<Body*> bs; std::vector<int> ids; for (auto& f : bodies) bs.push_back(new Body{f,""});
    for (auto b : bs) ids.push_back(sim_thread_create(body_main,b));
    for (int i : ids) sim_thread_join(i);
    std::vector<std::string> r; for (auto b : bs) { r.push_back(b->err); delete b; } return r;
}
}
// ---------------------------------------------------------------------------------------- the workload stub's pool
namespace SimPool {
struct Pool::Impl { std::deque<Job*> q; int running=0; std::exception_ptr err; };
Pool::Pool() : _impl(new Impl) { }
Pool::~Pool() { for (auto j : _impl->q) delete j; delete _impl; }
void Pool::push(Job* j) { sim_release(j); sim_ignore_begin(); _impl->q.push_back(j); sim_ignore_end(); sim_wake(_impl); sim_yield(); }
static void* worker(void* a) {
    auto* im=(Pool::Impl*)a;
    for (;;) {
        sim_yield(); sim_ignore_begin(); Job* j=nullptr; bool end=false;
        if (!im->q.empty()) { j=im->q.front(); im->q.pop_front(); ++im->running; } else if (im->running==0) end=true;
        sim_ignore_end();
        if (end) { sim_wake(im); return nullptr; }
        if (!j) { sim_block(im); continue; }
        sim_acquire(j); bool failed=false;
        try { j->run(); } catch (...) { sim_ignore_begin(); failed=true; if (!im->err) im->err=std::current_exception(); for (auto k : im->q) delete k; im->q.clear(); sim_ignore_end(); }
        delete j;
        (void)failed;
        sim_ignore_begin(); --im->running; bool done=(im->running==0 && im->q.empty()); sim_ignore_end(); if (done) sim_wake(im);
    }
}
void Pool::run(unsigned int c) {
    if (c==0) { while (!_impl->q.empty()) { Job* j=_impl->q.front(); _impl->q.pop_front(); try { j->run(); } catch (...) { delete j; throw; } delete j; } return; }
    int ids[16]; unsigned n=0; for (;n<c && n<8;++n) ids[n]=sim_thread_create(worker,_impl);
    for (unsigned i=0;i<n;++i) sim_thread_join(ids[i]);
    if (_impl->err) { auto e=_impl->err; _impl->err=nullptr; std::rethrow_exception(e); }
}
}
// ---------------------------------------------------------------------------------------- host
using namespace sim;
static char* plan_file_text; static bool thorough=false;
struct ChildArg { Scenario* sc; u64 seed; };
static Plan* child_plan;
static void child_main(void* a) {
    Scenario* sc=((ChildArg*)a)->sc;
    try { sc->run(*child_plan); }
    catch (std::exception const& e) { sim_violation("unexpected-exception","%s",e.what()); }
    catch (...) { sim_violation("unexpected-exception","non-standard exception"); }
}
static void child(Scenario* sc, u64 seed, bool from_file) {
    std::string text;
    if (from_file) text=plan_file_text;
    else { Plan p; p.scenario=sc->name; p.seed=seed; Rng r(seed*1000003+hash_str(sc->name)); sc->generate(r,p,thorough); text=p.text(); }
    child_plan=new Plan(Plan::parse(text)); Plan& p=*child_plan;
    sim_shared* s=sim_sh;
    s->sched_seed=p.get("sched_seed"); s->policy=(int)p.get("policy",POL_SEQ); s->quantum=(u32)p.get("quantum",1000); s->prob1024=(u32)p.get("prob1024",100);
    s->pct_depth=(int)p.get("pct_depth",3); s->pct_len=(u64)p.get("pct_len",100000); s->heap_reuse=(int)p.get("heap_reuse"); s->heap_dir=(int)p.get("heap_dir"); s->heap_seed=(u64)p.get("heap_seed");
    s->heap_fill=(int)p.get("heap_fill",1); s->race_detect=(int)p.get("race_detect",1); s->event_budget=(u64)p.get("event_budget",400000000); s->access_budget=(u64)p.get("access_budget",4000000000l);
    s->nexplicit=0;
    if (p.get("policy",POL_SEQ)==POL_EXPLICIT) for (auto& x : p.switches) if (s->nexplicit<SIM_MAX_SWITCHES) { s->explicit_sw[s->nexplicit].event=x.first; s->explicit_sw[s->nexplicit++].tid=x.second; }
    p.switches.clear(); size_t n=text.size()<SIM_TEXT-1?text.size():SIM_TEXT-1; memcpy(s->out,text.data(),n); s->out[n]=0; s->out_len=(u32)n;
    ChildArg a{sc,seed};
    sim_run_main(child_main,&a);
    for (int i=0;i<ncounters;++i) sim_report("count %s %ld",counters[i].kind,counters[i].n);
    sim_report("states %d",nstates); char b[2048]; int o=0; b[0]=0; for (int i=0;i<nstates && i<100;++i) o+=snprintf(b+o,sizeof b-o," %llx",(unsigned long long)(states[i]&0xFFFFFFFFFFFFull)); sim_report("statehash%s",b);
    _exit(0);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void esc(FILE* f, const char* t, u32 n) { for (u32 i=0;i<n;++i) { unsigned char c=t[i]; if (c=='"'||c=='\\') fprintf(f,"\\%c",c); else if (c=='\n') fputs("\\n",f); else if (c<32||c>126) fputc('?',f); else fputc(c,f); } }
static bool execute(Scenario* sc, u64 seed, bool from_file, const char* outdir, unsigned limit, bool always_plan) {
    sim_shared* s=sim_sh; memset(s,0,offsetof(sim_shared,text)); s->text_len=0; s->out_len=0;
    fflush(stdout); double t0=now(); pid_t pid=fork();
    if (pid==0) { struct rlimit rl={(rlim_t)0,(rlim_t)0}; setrlimit(RLIMIT_CORE,&rl); alarm(limit); child(sc,seed,from_file); }
    int st=0; waitpid(pid,&st,0); double dt=now()-t0;
    const char* status="ok";
    if (WIFSIGNALED(st) && WTERMSIG(st)==SIGALRM) status="timeout"; else if (WIFSIGNALED(st)||(WIFEXITED(st)&&WEXITSTATUS(st)!=0)) status="died"; else if (s->nviol) status="violation"; else if (s->finished!=1) status="died";
    printf("{\"scenario\":\"%s\",\"seed\":%llu,\"status\":\"%s\",\"exit\":%d,\"hash\":\"%016llx\",\"ihash\":\"%016llx\",\"events\":%llu,\"accesses\":%llu,\"switches\":%u,\"truncated\":%d,\"threads\":%u,\"max_live\":%u,\"sync\":%llu,\"conflicts\":%llu,\"sim_ns\":%llu,\"policy\":%d,\"wall\":%.4f,\"text\":\"",
        sc->name,(unsigned long long)seed,status,st,(unsigned long long)s->hash,(unsigned long long)s->interleaving_hash,(unsigned long long)s->events,(unsigned long long)s->accesses,s->nswitches,s->truncated_switches,s->threads_created,s->max_live,(unsigned long long)s->sync_ops,(unsigned long long)s->conflicts,(unsigned long long)(s->sim_ns-1000000000000ull),s->policy,dt);
    esc(stdout,s->text,s->text_len); 
    bool bad=strcmp(status,"ok")!=0;
    if (bad||always_plan) {
        fputs("\",\"plan\":\"",stdout); esc(stdout,s->out,s->out_len); fputs("\",\"sw\":[",stdout);
        for (u32 i=0;i<s->nswitches;++i) printf("%s[%llu,%u]",i?",":"",(unsigned long long)s->sw[i].event,s->sw[i].tid);
        fputs("]}\n",stdout);
    } else fputs("\"}\n",stdout);
    fflush(stdout); return !bad;
}
int main(int argc, char** argv) {
    static char obuf[1<<16]; setvbuf(stdout,obuf,_IOFBF,sizeof obuf);
    sim_sh=(sim_shared*)mmap(0,sizeof(sim_shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    if (argc>=2 && !strcmp(argv[1],"list")) { for (Scenario* s=all;s;s=s->next) puts(s->name); return 0; }
    if (argc>=3 && !strcmp(argv[1],"replay")) {
        // several plan files may be given; each is one run
        int rc=0; unsigned limit=120; bool plan=false;
        for (int i=2;i<argc;++i) {
            if (!strcmp(argv[i],"--limit")) { limit=atoi(argv[++i]); continue; } if (!strcmp(argv[i],"--plan")) { plan=true; continue; } if (!strcmp(argv[i],"--cpu")) { sim_cpu=atoi(argv[++i]); continue; }
            FILE* f=fopen(argv[i],"r"); if (!f) { perror(argv[i]); return 2; } static char buf[1<<23]; size_t n=fread(buf,1,sizeof buf-1,f); buf[n]=0; fclose(f); plan_file_text=buf;
            char name[128]=""; const char* q=strstr(buf,"scenario "); if (q) sscanf(q,"scenario %127s",name); u64 seed=0; q=strstr(buf,"\nseed "); if (q) sscanf(q,"\nseed %lu",&seed);
            Scenario* sc=all; while (sc && strcmp(sc->name,name)) sc=sc->next; if (!sc) { fprintf(stderr,"no scenario %s\n",name); return 2; }
            if (!execute(sc,seed,true,nullptr,limit,plan)) rc=1; }
        return rc;
    }
    if (argc>=3 && !strcmp(argv[1],"run")) {
        u64 from=0,count=1,step=1; double maxs=1e9; unsigned limit=60; bool plan=false;
        for (int i=3;i<argc;++i) { if (!strcmp(argv[i],"--from")) from=strtoull(argv[++i],0,10); else if (!strcmp(argv[i],"--count")) count=strtoull(argv[++i],0,10); else if (!strcmp(argv[i],"--step")) step=strtoull(argv[++i],0,10);
            else if (!strcmp(argv[i],"--max-seconds")) maxs=atof(argv[++i]); else if (!strcmp(argv[i],"--limit")) limit=atoi(argv[++i]); else if (!strcmp(argv[i],"--thorough")) thorough=true; else if (!strcmp(argv[i],"--cpu")) sim_cpu=atoi(argv[++i]); else if (!strcmp(argv[i],"--plan")) plan=true; }
        Scenario* sc=all; while (sc && strcmp(sc->name,argv[2])) sc=sc->next; if (!sc) { fprintf(stderr,"no scenario %s\n",argv[2]); return 2; }
        double t0=now(); int rc=0; for (u64 k=0;k<count;++k) { if (now()-t0>maxs) break; if (!execute(sc,from+k*step,false,nullptr,limit,plan)) rc=1; }
        return rc;
    }
    fprintf(stderr,"usage: sim list | run SCENARIO --from A --count N [--step K] | replay FILE...\n"); return 2;
}
