// Histories of in-place changes, with allocations that fail in the middle of them.
#include "mutables.hpp"
#include <algorithm>
#include <cstring>
#include <memory>
#include <mpfr.h>
#include <xmmintrin.h>
using namespace sim;
sim::MutFam* sim::MutFam::all=nullptr; sim::MutOp* sim::MutOp::all=nullptr;
namespace {
struct Ob { MutFam* f; void* p; Ob(MutFam* f_, u64 s) : f(f_), p(f_->make(s)) { } Ob(Ob const& o) : f(o.f), p(o.f->copy(o.p)) { } ~Ob() { f->del(p); } std::string digest() const { return f->digest(p); } };
static bool in_mods(MutFam* f, const char* mods) { std::string m=std::string(",")+mods+","; return m.find(std::string(",")+f->module+",")!=std::string::npos; }
static std::vector<MutOp*> ops_of(MutFam* f) { std::vector<MutOp*> v; for (MutOp* o=MutOp::all;o;o=o->next) if (o->fam==f) v.push_back(o); std::sort(v.begin(),v.end(),[](MutOp* a, MutOp* b){ return strcmp(a->name,b->name)<0; }); return v; }
static std::vector<MutOp*> all_ops(const char* mods) { std::vector<MutFam*> fs; for (MutFam* f=MutFam::all;f;f=f->next) if (in_mods(f,mods)) fs.push_back(f); std::sort(fs.begin(),fs.end(),[](MutFam* a, MutFam* b){ return strcmp(a->name,b->name)<0; }); std::vector<MutOp*> v; for (auto f : fs) for (auto o : ops_of(f)) v.push_back(o); return v; }
static MutFam* fam_of(std::string const& n) { for (MutFam* f=MutFam::all;f;f=f->next) if (n==f->name) return f; return nullptr; }
static MutOp* op_of(MutFam* f, std::string const& n) { for (MutOp* o=MutOp::all;o;o=o->next) if (o->fam==f && n==o->name) return o; return nullptr; }
static void gen(Rng& r, Plan& p, bool thorough, const char* mods) {
    gen_env(r,p,ENV_HEAP); auto all=all_ops(mods); MutOp* o0=all[(p.seed%1000000)%all.size()]; MutFam* f=o0->fam; auto ops=ops_of(f);
    p.set("fseed",r.below(1000000)); p.set("restore",r.below(3)); long n=r.range(4,thorough?40:16);
    long at=r.below(n); for (long i=0;i<n;++i) p.op("m",f->name,(i==at?o0:ops[r.below(ops.size())])->name,r.below(100000),i==at||r.chance(1,3)?(long)r.below(1u<<20):-1L,r.below(6));
}
static std::string ambient() { char b[64]; snprintf(b,sizeof b,"%u/%d/%ld",_MM_GET_ROUNDING_MODE(),(int)mpfr_get_default_rounding_mode(),(long)mpfr_get_default_prec()); return b; }
// "threw" by the operation itself, for its own reasons, is part of its behaviour
static std::string apply(MutOp* o, void* p, u64 a) { try { o->run(p,a); return ""; } catch (std::bad_alloc const&) { throw; } catch (std::exception const& e) { return std::string("!")+e.what(); } catch (...) { return "!?"; } }
static void wrong(const char* cls, MutOp* o, std::string const& g, std::string const& w, const char* how) { size_t i=0; while (i<g.size() && i<w.size() && g[i]==w[i]) ++i; size_t k=i>20?i-20:0;
    sim_violation(cls,"sig=%s/%s.%s %s: '%s' instead of '%s'",cls,o->fam->name,o->name,how,g.substr(k,70).c_str(),w.substr(k,70).c_str()); }
static void run(Plan const& p) {
    struct C { MutOp* o; u64 a; long fault; int kind; std::string want,res; u64 n=0; }; std::vector<C> cs; MutFam* f=nullptr;
    for (auto& v : p.ops) { f=fam_of(v[1]); if (!f) return; MutOp* o=op_of(f,v[2]); if (o) cs.push_back(C{o,(u64)to_l(v[3]),to_l(v[4]),(int)to_l(v[5]),"",""}); }
    if (cs.empty()) return; u64 sd=(u64)p.get("fseed"); int restore=(int)p.get("restore");
    { Ob w(f,sd); for (auto& c : cs) { try { apply(c.o,w.p,c.a); } catch (...) { } } }   // everything computed once is there
    { Ob x(f,sd); for (auto& c : cs) { Ob y(x); x.f->assign(x.p,y.p); sim_alloc_arm(~0ull,0); std::string t=apply(c.o,x.p,c.a); c.n=sim_alloc_disarm(); c.res=t; c.want=x.digest(); count("op_reference");
        size_t k=c.want.find("(@!"); if (k!=std::string::npos) { sim_violation("hist-invariant","sig=hist-invariant/%s.%s %s",f->name,c.o->name,c.want.substr(k,80).c_str()); return; } } }
    std::string amb=ambient(); u64 mark=sim_alloc_mark(); MutOp* last=cs[0].o;
    { Ob x(f,sd); std::unique_ptr<Ob> other; bool cmp=true;
      for (auto& c : cs) {
        last=c.o; bool did=false;
        if (c.fault>=0 && c.n>0) {
            Ob save(x); u64 k=(u64)c.fault%c.n; bool all=c.kind==0, threw=false; std::string t;
            sim_alloc_arm(k,all?1000000:1); try { t=apply(c.o,x.p,c.a); } catch (std::bad_alloc const&) { threw=true; } sim_alloc_disarm(); int fired=sim_alloc_fired();
            if (!t.empty() && t!=c.res) threw=true;
            if (fired) count(all?"fault_alloc_persistent":"fault_alloc_once",fired); else count("fault_alloc_not_reached");
            if (ambient()!=amb) { sim_violation("alloc-rounding","sig=alloc-rounding/%s.%s rounding settings changed",f->name,c.o->name); _MM_SET_ROUNDING_MODE(_MM_ROUND_NEAREST); mpfr_set_default_rounding_mode(MPFR_RNDN); mpfr_set_default_prec(53); }
            if (threw) {
                count("op_failed"); 
                if (restore==0) { f->assign(x.p,save.p); if (cmp && x.digest()!=save.digest()) wrong("hist-assign",c.o,x.digest(),save.digest(),"assigned after a failed change"); }   // assigned a good value
                else if (restore==1) { f->del(x.p); x.p=f->copy(save.p); }                                                       // destroyed, and another made
                else { if (c.kind==4) { Ob y(x); f->assign(x.p,y.p); } cmp=false; }                                                                  // used further as it is
            } else { did=true; if (fired) count("op_survived"); }
        }
        if (!did) { std::string t; try { t=apply(c.o,x.p,c.a); } catch (std::bad_alloc const&) { sim_violation("hist-error","sig=hist-error/%s.%s out of memory without a failure",f->name,c.o->name); } if (cmp && t!=c.res) wrong("hist-mismatch",c.o,t,c.res,"outcome"); }
        count("op_changes"); if (cmp) { std::string g=x.digest(); if (g!=c.want) { wrong("hist-mismatch",c.o,g,c.want,"after earlier failures"); cmp=false; } state(hash_str(std::string(c.o->name)+c.want)); }
        else { std::string g=x.digest(); size_t k=g.find("(@!"); if (k!=std::string::npos) { sim_violation("hist-invariant","sig=hist-invariant/%s.%s after a failed change: %s",f->name,c.o->name,g.substr(k,80).c_str()); break; } }
        { std::string().swap(c.want); }
        if (!cmp && c.kind==3 && !other) { other.reset(new Ob(x)); f->assign(other->p,x.p); }
      } }
    std::vector<C>().swap(cs); amb.clear(); amb.shrink_to_fit();
    u64 ids[8]; u32 pcs[32]; int n=sim_live_since(mark,ids,8,pcs); if (n>0) sim_violation("leak","sig=leak/%s.history(%s) %d blocks stay allocated pc1=%x pc2=%x pc3=%x pc4=%x size=%u",f->name,last->name,n,pcs[0],pcs[1],pcs[2],pcs[3],sim_block_size(ids[0]));
    sim_heap_check();
}
#define GROUP(tag,mods) static void g_##tag(Rng& r, Plan& p, bool t) { gen(r,p,t,mods); } static Scenario s_##tag("hist_" #tag,g_##tag,run);
GROUP(num,"numeric,algebra,utility")
GROUP(fun,"function,symbolic,taylor")
GROUP(geo,"geometry,paving")
GROUP(pav,"paving")
GROUP(any,"numeric,algebra,utility,function,symbolic,taylor,geometry,paving,dynamics,hybrid")
}
