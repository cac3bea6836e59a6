// The catalogue of operations: families of shared operands and const operations on them, each giving an exact digest.
// The same operations are run under every fault dimension (concurrent callers, failing allocations, ambient rounding modes, heap contents).
#ifndef SIM_CATALOGUE_HPP
#define SIM_CATALOGUE_HPP
#include "harness.hpp"
#include <type_traits>
namespace sim {
// what is written by operator<<; a failing allocation while writing is an exception, as the stream is asked to throw
template<class T> std::string wr(T const& t) { std::ostringstream o; o.exceptions(std::ios::badbit); o<<t; return o.str(); }
struct CatFam { const char* name; const char* module; void* (*make)(u64); void (*del)(void*); CatFam* next; static CatFam* all; };
// F_APPROX: heuristic, the result may depend on the ambient rounding mode (its enclosure property is what matters)
// F_SLOW: chosen rarely.  F_NOALLOC, F_NOSHARE, F_NOROUND: not run under that dimension (each one is explained in DESIGN.md)
enum OpFlags { F_NONE=0, F_APPROX=1, F_SLOW=2, F_NOALLOC=4, F_NOSHARE=8, F_NOROUND=16 };
struct CatOp { CatFam* fam; const char* name; std::string (*tramp)(void(*)(),void const*,u64); void (*fn)(); int flags; CatOp* next; static CatOp* all;
    std::string run(void const* s, u64 a) const { return tramp(fn,s,a); } };
template<class S> struct Fam : CatFam {
    typedef std::string (*Fn)(S const&, Rng&);
    Fam(const char* n, const char* m) { name=n; module=m; make=[](u64 s)->void*{ return new S(s); }; del=[](void* p){ delete (S*)p; }; next=all; all=this; }
    static std::string tramp(void(*f)(), void const* p, u64 a) { Rng r(a); return ((Fn)f)(*(S const*)p,r); }
    void op(const char* n, Fn f, int flags=0) { CatOp* o=new CatOp{this,n,&tramp,(void(*)())f,flags,CatOp::all}; CatOp::all=o; }
};
struct NoFail { NoFail() { sim_alloc_pause(1); } ~NoFail() { sim_alloc_pause(-1); } };  // the digest itself is not part of the operation
template<class T> std::string dg(T const& t) {
    NoFail nf;
    if constexpr (std::is_same_v<T,std::string>) return t;
    else if constexpr (std::is_same_v<T,double>) { u64 b; __builtin_memcpy(&b,&t,8); char s[24]; snprintf(s,sizeof s,"%016llx ",(unsigned long long)b); return s; }
    else if constexpr (requires { dig(t); }) return dig(t);
    else { std::ostringstream o; o.precision(17); o<<t; return o.str()+" "; }
}
template<class A, class B, class... C> std::string dg(A const& a, B const& b, C const&... c) { NoFail nf; return dg(a)+","+dg(b,c...); }
}
#define FAMILY(S_,mod) namespace reg_##S_ { using S=S_; static sim::Fam<S_> F(#S_,mod); struct R { R(); } static reg; } reg_##S_::R::R()
#define E(nm,...) F.op(#nm,[](S const& s, sim::Rng& r)->std::string { (void)s; (void)r; return sim::dg(__VA_ARGS__); });
#define EF(nm,fl,...) F.op(#nm,[](S const& s, sim::Rng& r)->std::string { (void)s; (void)r; return sim::dg(__VA_ARGS__); },fl);
#define B(nm,...) F.op(#nm,[](S const& s, sim::Rng& r)->std::string { (void)s; (void)r; __VA_ARGS__ });
#define BF(nm,fl,...) F.op(#nm,[](S const& s, sim::Rng& r)->std::string { (void)s; (void)r; __VA_ARGS__ },fl);
#endif
