// The fault dimensions under which the catalogue's operations are run.
#include "catalogue.hpp"
#include <algorithm>
#include <cfenv>
#include <mpfr.h>
#include <xmmintrin.h>
#include <cstring>
#include <memory>
#include <new>
#include <string>
#include <vector>
using namespace sim;
namespace {
static CatFam* fam_of(std::string const& n) { for (CatFam* f=CatFam::all;f;f=f->next) if (n==f->name) return f; return nullptr; }
static CatOp* op_of(CatFam* f, std::string const& n) { for (CatOp* o=CatOp::all;o;o=o->next) if (o->fam==f && n==o->name) return o; return nullptr; }
static bool in_mods(CatFam* f, const char* mods) { std::string m=std::string(",")+mods+","; return m.find(std::string(",")+f->module+",")!=std::string::npos; }
static std::vector<CatFam*> fams(const char* mods) { std::vector<CatFam*> v; for (CatFam* f=CatFam::all;f;f=f->next) if (in_mods(f,mods)) v.push_back(f); std::sort(v.begin(),v.end(),[](CatFam* a, CatFam* b){return strcmp(a->name,b->name)<0;}); return v; }
static std::vector<CatOp*> ops_of(CatFam* f, int without) { std::vector<CatOp*> v; for (CatOp* o=CatOp::all;o;o=o->next) if (o->fam==f && !(o->flags&without)) v.push_back(o); std::sort(v.begin(),v.end(),[](CatOp* a, CatOp* b){return strcmp(a->name,b->name)<0;}); return v; }
static CatOp* pick_op(Rng& r, std::vector<CatOp*> const& v) { for (int i=0;;++i) { CatOp* o=v[r.below(v.size())]; if (!(o->flags&F_SLOW) || i>8 || r.chance(1,6)) return o; } }
// families weighted by the number of their operations
static CatFam* pick_fam(Rng& r, std::vector<CatFam*> const& fs, int without) { size_t n=0; for (auto f : fs) n+=ops_of(f,without).size()+4; size_t k=r.below(n); for (auto f : fs) { size_t m=ops_of(f,without).size()+4; if (k<m) return f; k-=m; } return fs[0]; }
// the operations of a group in a fixed order: consecutive seeds begin with consecutive operations, so that every operation is met equally often
static std::vector<CatOp*> const& all_ops(const char* mods, int without) { static std::map<std::string,std::vector<CatOp*>> c; auto& v=c[mods+std::to_string(without)]; if (v.empty()) for (auto f : fams(mods)) for (auto o : ops_of(f,without)) v.push_back(o); return v; }
static CatOp* lead_op(Rng& r, Plan const& p, const char* mods, int without) { auto& v=all_ops(mods,without); for (u64 k=p.seed%1000000;;k=k*31+7) { CatOp* o=v[k%v.size()]; if (!(o->flags&F_SLOW) || r.chance(1,5)) return o; } }
static std::string run_op(CatOp const* o, void const* s, u64 a) {
    try { return o->run(s,a); } catch (std::bad_alloc const&) { throw; } catch (std::exception const& e) { return std::string("!")+e.what(); } catch (...) { return "!?"; } }
static std::string diff(std::string const& a, std::string const& b) { size_t i=0; while (i<a.size() && i<b.size() && a[i]==b[i]) ++i; size_t k=i>20?i-20:0; return "'"+a.substr(k,70)+"' instead of '"+b.substr(k,70)+"'"; }
static void mismatch(const char* cls, CatOp const* o, std::string const& got, std::string const& want, const char* how) {
    std::string d=diff(got,want); sim_violation(cls,"sig=%s/%s.%s %s: %s",cls,o->fam->name,o->name,how,d.c_str()); }
struct Inst { CatFam* f; void* p; Inst(CatFam* f_, u64 s) : f(f_), p(f_->make(s)) { } ~Inst() { f->del(p); } Inst(Inst const&)=delete; };
static void* make_threaded(CatFam* f, u64 s) { return f->make(s); }
static const int MODES[4]={FE_TONEAREST,FE_UPWARD,FE_DOWNWARD,FE_TOWARDZERO};
static const char* mode_name(int m) { return m==FE_TONEAREST?"near":m==FE_UPWARD?"up":m==FE_DOWNWARD?"down":m==FE_TOWARDZERO?"zero":"?"; }
// the ambient settings of a thread: rounding of built-in arithmetic, default rounding and default precision of MPFR
struct Ambient { int fe; int sse; int mr; long mp;
    static Ambient get() { return Ambient{fegetround(),(int)_MM_GET_ROUNDING_MODE(),(int)mpfr_get_default_rounding_mode(),(long)mpfr_get_default_prec()}; }
    void set() const { fesetround(fe); _MM_SET_ROUNDING_MODE(sse); mpfr_set_default_rounding_mode((mpfr_rnd_t)mr); mpfr_set_default_prec(mp); }
    void set_builtin(int m) { fe=m; sse=m==FE_UPWARD?_MM_ROUND_UP:m==FE_DOWNWARD?_MM_ROUND_DOWN:m==FE_TOWARDZERO?_MM_ROUND_TOWARD_ZERO:_MM_ROUND_NEAREST; }
    bool operator==(Ambient const& o) const { return fe==o.fe && sse==o.sse && mr==o.mr && mp==o.mp; }
    std::string str() const { const char* x=sse==_MM_ROUND_UP?"up":sse==_MM_ROUND_DOWN?"down":sse==_MM_ROUND_TOWARD_ZERO?"zero":"near"; return std::string(x)+(std::string(x)==mode_name(fe)?"":std::string("(x87 ")+mode_name(fe)+")")+"/mpfr "+mpfr_print_rnd_mode((mpfr_rnd_t)mr)+"/"+std::to_string(mp)+" bits"; } };

// ---------------------------------------------------------------- concurrent callers on shared operands
static void gen_share(Rng& r, Plan& p, bool thorough, const char* mods) {
    gen_env(r,p,ENV_HEAP|ENV_SCHED); CatOp* o0=lead_op(r,p,mods,F_NOSHARE); CatFam* f=o0->fam; auto ops=ops_of(f,F_NOSHARE);
    p.set("threads",r.range(2,thorough?6:4)); p.set("fseed",r.below(1000000)); p.set("after",r.below(3)==0);
    long n=p.get("threads")*r.range(2,thorough?8:5); bool same=r.chance(1,3);
    // half of the runs concentrate on few operations, so that the same lazily computed values are met by several threads at once
    std::vector<std::pair<CatOp*,u64>> pool; for (int i=0,k=r.chance(1,2)?r.range(1,3):n;i<k;++i) pool.push_back({i?pick_op(r,ops):o0,r.below(100000)});
    for (long i=0;i<n;++i) { auto& q=same?pool[0]:pool[r.below(pool.size())]; p.op("op",i%p.get("threads"),f->name,q.first->name,q.second); }
}
struct Call { CatOp* o; u64 a; std::string want,got; };
static void run_share(Plan const& p) {
    CatFam* f=nullptr; int T=(int)p.get("threads"); std::vector<std::vector<Call>> calls(T);
    for (auto& v : p.ops) { f=fam_of(v[2]); if (!f) return; CatOp* o=op_of(f,v[3]); if (o) calls[to_l(v[1])%T].push_back(Call{o,(u64)to_l(v[4]),"",""}); }
    if (!f) return;
    std::unique_ptr<Inst> ref(new Inst(f,p.get("fseed")));
    for (auto& c : calls) for (auto& k : c) { k.want=run_op(k.o,ref->p,k.a); }
    ref.reset();
    std::unique_ptr<Inst> sh(new Inst(f,p.get("fseed"))); void const* s=sh->p;
    std::vector<std::function<void()>> bodies;
    for (int t=0;t<T;++t) { auto* c=&calls[t]; bodies.push_back([c,s]{ for (auto& k : *c) k.got=run_op(k.o,s,k.a); }); }
    auto errs=run_threads(bodies);
    for (int t=0;t<T;++t) { if (!errs[t].empty()) sim_violation("share-error","sig=share-error/%s thread %d: %s",f->name,t,errs[t].c_str());
        for (auto& k : calls[t]) { count("op_calls"); if (k.got!=k.want) mismatch("share-mismatch",k.o,k.got,k.want,"called concurrently"); state(hash_str(std::string(k.o->name)+k.want)); } }
    if (p.get("after")) for (auto& c : calls) for (auto& k : c) { std::string g=run_op(k.o,s,k.a); if (g!=k.want) mismatch("share-mismatch",k.o,g,k.want,"called after concurrent use"); }
    sh.reset(); sim_heap_check();
}

// ---------------------------------------------------------------- failing allocations
static void gen_alloc(Rng& r, Plan& p, bool thorough, const char* mods) {
    gen_env(r,p,ENV_HEAP); CatOp* o0=lead_op(r,p,mods,F_NOALLOC); CatFam* f=o0->fam; auto ops=ops_of(f,F_NOALLOC);
    long n=r.range(1,thorough?5:3);
    for (long i=0;i<n;++i) p.op("op",f->name,(i?pick_op(r,ops):o0)->name,r.below(100000),r.below(1000000));
    long k=r.range(4,thorough?30:14); for (long i=0;i<k;++i) p.fault(r.chance(1,5)?"alloc_fail_all":"alloc_fail",r.below(1u<<20));
}
static void report_leak(CatOp* o, u64 mark, const char* how) {
    u64 ids[8]; u32 pcs[32]; int n=sim_live_since(mark,ids,8,pcs); if (n<=0) return;
    sim_violation("leak","sig=leak/%s.%s %d blocks stay allocated %s pc1=%x pc2=%x pc3=%x pc4=%x size=%u",o->fam->name,o->name,n,how,pcs[0],pcs[1],pcs[2],pcs[3],n>0?sim_block_size(ids[0]):0); }
static void run_alloc(Plan const& p) {
    for (auto& v : p.ops) {
        CatFam* f=fam_of(v[1]); if (!f) return; CatOp* o=op_of(f,v[2]); if (!o) continue; u64 a=(u64)to_l(v[3]), fseed=(u64)to_l(v[4]);
        std::unique_ptr<Inst> in(new Inst(f,fseed)); void* s=in->p;
        std::string want=run_op(o,s,a), got; got=run_op(o,s,a); // twice: everything that is computed once is there
        if (got!=want) { mismatch("history-mismatch",o,got,want,"called again"); continue; }
        got.clear(); got.shrink_to_fit();
        sim_alloc_arm(~0ull,0); try { got=run_op(o,s,a); } catch (...) { } u64 n=sim_alloc_disarm(); std::string().swap(got);
        if (n==0) { count("op_without_allocation"); continue; }
        Ambient rnd0=Ambient::get(); u64 budget=300000;
        for (auto& ft : p.faults) {
            if (budget<n) break; budget-=n;
            u64 k=(u64)ft.second%n; bool all=ft.first=="alloc_fail_all"; bool threw=false; std::string what; u64 mark=sim_alloc_mark();
            { std::string g; sim_alloc_arm(k,all?1000000:1);
              try { g=o->run(s,a); } catch (std::exception const& e) { sim_alloc_disarm(); threw=true; if (!dynamic_cast<std::bad_alloc const*>(&e)) { std::string w=std::string("!")+e.what(); what.swap(w); } } catch (...) { sim_alloc_disarm(); threw=true; what="!?"; }
              int fired; if (!threw) sim_alloc_disarm(); fired=sim_alloc_fired();
              if (fired) count(all?"fault_alloc_persistent":"fault_alloc_once",fired); else count("fault_alloc_not_reached");
              if (!threw) { if (g!=want) mismatch("alloc-wrong-result",o,g,want,"result after a failed allocation"); else if (fired) count("op_survived_failure"); }
              else count("op_failed_cleanly"); }
            std::string().swap(what);
            if (!(Ambient::get()==rnd0)) { sim_violation("alloc-rounding","sig=alloc-rounding/%s.%s rounding settings left %s after a failed allocation",f->name,o->name,Ambient::get().str().c_str()); rnd0.set(); }
            report_leak(o,mark,"after a failed allocation");
            std::string g=run_op(o,s,a); if (g!=want) mismatch("alloc-retry",o,g,want,"called again after a failed allocation");
            state(hash_str(std::string(o->name)+std::to_string(k)));
        }
        // every operand is as it was: the other operations on it still give their results
        { Rng r(p.seed^a); auto ops=ops_of(f,F_NOALLOC|F_SLOW); std::unique_ptr<Inst> fresh(new Inst(f,fseed));
          for (int i=0;i<4 && !ops.empty();++i) { CatOp* q=ops[r.below(ops.size())]; u64 b=r.below(100000); std::string w=run_op(q,fresh->p,b), g=run_op(q,s,b); if (w!=g) mismatch("alloc-operand-changed",q,g,w,(std::string("after failures in ")+o->name).c_str()); } }
        in.reset(); sim_heap_check();
    }
}

// ---------------------------------------------------------------- construction of the operands, with failing allocations
static void run_ctor(Plan const& p) {
    for (auto& v : p.ops) {
        CatFam* f=fam_of(v[1]); if (!f) return; u64 sd=(u64)to_l(v[4]);
        { Inst a(f,sd); Inst b(f,sd); }
        sim_alloc_arm(~0ull,0); void* q=f->make(sd); u64 n=sim_alloc_disarm(); f->del(q); if (!n) continue; Ambient rnd0=Ambient::get(); u64 budget=300000;
        for (auto& ft : p.faults) { if (budget<n) break; budget-=n;
            u64 k=(u64)ft.second%n; u64 mark=sim_alloc_mark(); void* t=nullptr; sim_alloc_arm(k,ft.first=="alloc_fail_all"?1000000:1); try { t=f->make(sd); } catch (...) { } sim_alloc_disarm(); count("fault_alloc_in_construction",sim_alloc_fired()); if (t) f->del(t);
            u64 ids[8]; u32 pcs[32]; int m=sim_live_since(mark,ids,8,pcs); if (m>0) sim_violation("leak","sig=leak/%s.construct %d blocks stay allocated after a failed construction pc1=%x pc2=%x pc3=%x pc4=%x size=%u",f->name,m,pcs[0],pcs[1],pcs[2],pcs[3],sim_block_size(ids[0]));
            if (!(Ambient::get()==rnd0)) { sim_violation("alloc-rounding","sig=alloc-rounding/%s.construct rounding settings left %s",f->name,Ambient::get().str().c_str()); rnd0.set(); } }
        sim_heap_check();
    }
}

// ---------------------------------------------------------------- ambient rounding mode
static void gen_round(Rng& r, Plan& p, bool thorough, const char* mods) {
    gen_env(r,p,ENV_HEAP); CatOp* o0=lead_op(r,p,mods,F_NOROUND); CatFam* f=o0->fam; auto ops=ops_of(f,F_NOROUND); long n=r.range(4,thorough?10:8);
    for (long i=0;i<n;++i) p.op("op",f->name,(i&1?pick_op(r,ops):o0)->name,r.below(100000),r.below(1000000));
    int m[3]={1,2,3}; for (int i=2;i>0;--i) std::swap(m[i],m[r.below(i+1)]); for (int i=0;i<3;++i) p.fault("rounding",m[i]); if (r.chance(1,2)) p.fault("mpfr_rounding",r.range(1,3)); if (r.chance(1,2)) { static const long pr[]={24,64,113,200}; p.fault("mpfr_precision",pr[r.below(4)]); }
    p.set("fresh",r.below(2));
}
static void run_round(Plan const& p) {
    Ambient d=Ambient::get(); u64 acc0=sim_accesses();
    auto chk=[&](CatFam* f, const char* nm, Ambient const& was, const char* ex) { Ambient n=Ambient::get(); if (n==was) return; sim_violation("rounding-changed","sig=rounding-changed/%s.%s from %s to %s%s",f->name,nm,was.str().c_str(),n.str().c_str(),ex); was.set(); };
    for (auto& v : p.ops) {
        CatFam* f=fam_of(v[1]); if (!f) return; CatOp* o=op_of(f,v[2]); if (!o) continue; u64 a=(u64)to_l(v[3]), fseed=(u64)to_l(v[4]); d.set(); if (sim_accesses()-acc0>20000000) { count("op_over_budget"); break; }
        std::unique_ptr<Inst> in(new Inst(f,fseed)); chk(f,"construct",d,"");
        std::string want=run_op(o,in->p,a); chk(f,o->name,d,want[0]=='!'?" (on an exception)":"");
        count(want[0]=='!'?"op_exceptional":"op_normal");
        for (auto& ft : p.faults) {
            Ambient m=d; if (ft.first=="rounding") m.set_builtin(MODES[ft.second&3]); else if (ft.first=="mpfr_rounding") { static const mpfr_rnd_t R[]={MPFR_RNDN,MPFR_RNDZ,MPFR_RNDU,MPFR_RNDD}; m.mr=R[ft.second&3]; } else if (ft.first=="mpfr_precision") m.mp=ft.second; 
            if (m==d) continue;
            // on operands made before the change, or under it
            if (p.get("fresh") && !(o->flags&F_APPROX)) { in.reset(); m.set(); in.reset(new Inst(f,fseed)); chk(f,"construct",m,""); }
            m.set(); std::string got=run_op(o,in->p,a); chk(f,o->name,m,got[0]=='!'?" (on an exception)":""); d.set();
            count((std::string("fault_ambient_")+ft.first).c_str());
            if (got!=want && !(o->flags&F_APPROX) && !(got[0]=='!' && want[0]=='!')) mismatch("rounding-dependent",o,got,want,(std::string("under ")+m.str()).c_str());
            state(hash_str(std::string(o->name)+m.str()+want));
        }
    }
}

// ---------------------------------------------------------------- heap contents, layout and history
static void gen_env_(Rng& r, Plan& p, bool thorough, const char* mods) {
    gen_env(r,p,ENV_HEAP); auto fs=fams(mods); CatOp* o0=lead_op(r,p,mods,0); CatFam* f=o0->fam; auto ops=ops_of(f,0); p.set("fseed",r.below(1000000)); long n=r.range(4,thorough?16:9);
    for (long i=0;i<n;++i) { CatFam* g=i&&r.chance(1,4)?pick_fam(r,fs,0):f; auto os=g==f?ops:ops_of(g,0); p.op("op",g->name,(i?pick_op(r,os):o0)->name,r.below(100000)); }
    long k=r.range(2,5); for (long i=0;i<k;++i) p.fault("heap",r.below(1u<<20)); p.set("failures",r.below(2)); p.set("freshinst",r.below(2));
}
static void heap_set(u64 h) { sim_sh->heap_fill=1+(int)(h&3); sim_sh->heap_reuse=(int)((h>>2)&3); sim_sh->heap_dir=(int)((h>>4)%3); }
static void run_env(Plan const& p) {
    struct C { CatFam* f; CatOp* o; u64 a; std::string want; }; std::vector<C> cs; std::map<CatFam*,std::unique_ptr<Inst>> in;
    for (auto& v : p.ops) { CatFam* f=fam_of(v[1]); if (!f) return; CatOp* o=op_of(f,v[2]); if (o) cs.push_back(C{f,o,(u64)to_l(v[3]),""}); }
    // each operation alone on an operand of its own
    for (auto& c : cs) { Inst i(c.f,p.get("fseed")); c.want=run_op(c.o,i.p,c.a); count("op_reference"); }
    // then in other orders, on operands with a history, in a heap with other contents and layout
    Rng r(p.seed*77+5); std::string g;
    for (auto& ft : p.faults) {
        heap_set((u64)ft.second); count("fault_heap_contents"); if (p.get("freshinst")) in.clear();
        for (size_t i=cs.size();i>1;--i) std::swap(cs[i-1],cs[r.below(i)]);
        for (auto& c : cs) {
            auto& q=in[c.f]; if (!q) q.reset(new Inst(c.f,p.get("fseed")));
            if (p.get("failures") && !(c.o->flags&F_NOALLOC) && r.chance(1,3)) { sim_alloc_arm(r.below(60),1); Ambient rn=Ambient::get(); try { c.o->run(q->p,c.a); } catch (...) { } sim_alloc_disarm(); rn.set(); if (sim_alloc_fired()) count("fault_alloc_once"); }
            g=run_op(c.o,q->p,c.a); count("op_repeated"); if (g!=c.want) mismatch("history-mismatch",c.o,g,c.want,"after other operations and with other heap contents"); state(hash_str(std::string(c.o->name)+c.want)); }
    }
    in.clear();
    // nothing of an operation's own stays allocated
    for (auto& c : cs) { u64 m0; { Inst i(c.f,p.get("fseed")); g=run_op(c.o,i.p,c.a); std::string().swap(g); } m0=sim_alloc_mark(); { Inst i(c.f,p.get("fseed")); g=run_op(c.o,i.p,c.a); std::string().swap(g); } report_leak(c.o,m0,"after the operation and the destruction of its operands"); }
    sim_heap_check();
}
// ---------------------------------------------------------------- how long every operation takes (not part of any check)
static void gen_cost(Rng& r, Plan& p, bool) { gen_env(r,p,ENV_HEAP); p.set("fseed",r.below(1000000)); }
static void run_cost(Plan const& p) {
    for (CatFam* f=CatFam::all;f;f=f->next) { u64 c=sim_accesses(); Inst i(f,p.get("fseed")); count((std::string("cost_")+f->name+".construct").c_str(),(long)(sim_accesses()-c));
        for (CatOp* o : ops_of(f,0)) { Rng r(p.seed); c=sim_accesses(); std::string w=run_op(o,i.p,r.below(100000)); count((std::string("cost_")+f->name+"."+o->name+(w[0]=='!'?"!":"")).c_str(),(long)(sim_accesses()-c)); } }
}
static Scenario s_cost("cost",gen_cost,run_cost);
#define GROUP(tag,mods) \
    static void gs_##tag(Rng& r, Plan& p, bool t) { gen_share(r,p,t,mods); } static Scenario s1_##tag("share_" #tag,gs_##tag,run_share); \
    static void ga_##tag(Rng& r, Plan& p, bool t) { gen_alloc(r,p,t,mods); } static Scenario s2_##tag("alloc_" #tag,ga_##tag,run_alloc); static Scenario s5_##tag("ctor_" #tag,ga_##tag,run_ctor); \
    static void gr_##tag(Rng& r, Plan& p, bool t) { gen_round(r,p,t,mods); } static Scenario s3_##tag("round_" #tag,gr_##tag,run_round); \
    static void ge_##tag(Rng& r, Plan& p, bool t) { gen_env_(r,p,t,mods); } static Scenario s4_##tag("env_" #tag,ge_##tag,run_env);
GROUP(num,"numeric,algebra")
GROUP(sym,"symbolic")
GROUP(tay,"taylor")
GROUP(fun,"function,symbolic,taylor")
GROUP(geo,"geometry")
GROUP(dyn,"dynamics,hybrid")
GROUP(any,"numeric,algebra,function,symbolic,taylor,geometry,dynamics,hybrid")
}
