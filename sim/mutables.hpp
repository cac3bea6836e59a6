// Objects changed in place: families of copyable states and operations that change them.
#ifndef SIM_MUTABLES_HPP
#define SIM_MUTABLES_HPP
#include "catalogue.hpp"
namespace sim {
struct MutFam { const char* name; const char* module; void* (*make)(u64); void* (*copy)(void const*); void (*assign)(void*,void const*); void (*del)(void*); std::string (*digest)(void const*); MutFam* next; static MutFam* all; };
struct MutOp { MutFam* fam; const char* name; void (*tramp)(void(*)(),void*,u64); void (*fn)(); int flags; MutOp* next; static MutOp* all; void run(void* s, u64 a) const { tramp(fn,s,a); } };
template<class S> struct MFam : MutFam {
    typedef void (*Fn)(S&, Rng&);
    MFam(const char* n, const char* m) { name=n; module=m; make=[](u64 s)->void*{ return new S(s); }; copy=[](void const* p)->void*{ return new S(*(S const*)p); }; assign=[](void* p, void const* q){ *(S*)p=*(S const*)q; };
        del=[](void* p){ delete (S*)p; }; digest=[](void const* p)->std::string { NoFail nf; return ((S const*)p)->digest(); }; next=all; all=this; }
    static void tramp(void(*f)(), void* p, u64 a) { Rng r(a); ((Fn)f)(*(S*)p,r); }
    void op(const char* n, Fn f, int flags=0) { MutOp* o=new MutOp{this,n,&tramp,(void(*)())f,flags,MutOp::all}; MutOp::all=o; }
};
}
#define MUTABLE(S_,mod) namespace regm_##S_ { using S=S_; static sim::MFam<S_> F(#S_,mod); struct R { R(); } static reg; } regm_##S_::R::R()
#define M(nm,...) F.op(#nm,[](S& s, sim::Rng& r) { (void)s; (void)r; __VA_ARGS__ });
#define MF(nm,fl,...) F.op(#nm,[](S& s, sim::Rng& r) { (void)s; (void)r; __VA_ARGS__ },fl);
#endif
