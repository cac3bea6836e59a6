// Linear algebra, differentials, series, expansions, containers.
#include "digest_num.hpp"
#include "numeric/real.hpp"
#include "numeric/decimal.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/matrix.hpp"
#include "algebra/matrix.tpl.hpp"
#include "algebra/symmetric_matrix.hpp"
#include "algebra/diagonal_matrix.hpp"
#include "algebra/differential.hpp"
#include "algebra/univariate_differential.hpp"
#include "algebra/series.hpp"
#include "algebra/graded.hpp"
#include "algebra/expansion.hpp"
#include "algebra/multi_index.hpp"
#include "algebra/algebra.hpp"
#include "utility/array.hpp"
#include "utility/container.hpp"
#include "utility/lru_cache.hpp"
#include "utility/handle.hpp"
#include "digest_alg.hpp"
#include "catalogue.hpp"
using namespace Ariadne; using namespace sim;
namespace {
static Rational rq(Rng& r) { return Rational(Integer(r.range(-900,900)),Integer(r.range(1,97))); }
static Rational rsm(Rng& r) { return Rational(Integer(r.range(-90,90)),Integer(100)); }
static Rational rpos(Rng& r) { return Rational(Integer(r.range(60,400)),Integer(100)); }
template<class X> struct Mk;
template<> struct Mk<Rational> { static Rational mk(Rational q, u64) { return q; } };
template<> struct Mk<FloatDPBounds> { static FloatDPBounds mk(Rational q, u64 s) { return s%4==1?FloatDPBounds(q-Rational(1,(Int)(3+s%50)),q+Rational(1,(Int)(2+s%70)),dp):FloatDPBounds(q,dp); } };
template<> struct Mk<FloatMPBounds> { static FloatMPBounds mk(Rational q, u64 s) { static const int k[]={53,64,96,128,24}; return FloatMPBounds(q,MultiplePrecision(k[s%5])); } };
template<> struct Mk<FloatDPApproximation> { static FloatDPApproximation mk(Rational q, u64) { return FloatDPApproximation(q,dp); } };
// ---------------------------------------------------------------- vectors and matrices
template<class X_> struct Lin { typedef X_ X; SizeType n,m; X z; Vector<X> v,w; Covector<X> u; Matrix<X> A,B_,C,W; X c;
    explicit Lin(u64 seed) : Lin(Rng(seed),seed) { }
    Lin(Rng r, u64 sd) : n((SizeType)r.range(1,4)), m((SizeType)r.range(1,4)), z(Mk<X>::mk(Rational(0),sd)), v(n,z), w(n,z), u(n,z), A(n,n,z), B_(n,n,z), C(n,m,z), W(m,n,z), c(Mk<X>::mk(rpos(r),sd)) {
        for (SizeType i=0;i!=n;++i) { v[i]=Mk<X>::mk(rq(r),sd); w[i]=Mk<X>::mk(rsm(r),sd); u[i]=Mk<X>::mk(rsm(r),sd); for (SizeType j=0;j!=n;++j) { A[i][j]=Mk<X>::mk(rsm(r)*Rational(1,3),sd); B_[i][j]=Mk<X>::mk(rq(r),sd); } A[i][i]=Mk<X>::mk(rpos(r)+Rational(3),sd); for (SizeType j=0;j!=m;++j) { C[i][j]=Mk<X>::mk(rsm(r),sd); W[j][i]=Mk<X>::mk(rq(r),sd); } } } };
#define LIN_OPS(FL) \
    EF(vadd,FL,Vector<X>(s.v+s.w),Vector<X>(s.v-s.w),Vector<X>(-s.v)) EF(vscal,FL,Vector<X>(s.c*s.v),Vector<X>(s.v*s.c),Vector<X>(s.v/s.c)) EF(vdot,FL,X(dot(s.v,s.w)),X(s.u*s.v)) EF(vjoin,FL,join(s.v,s.w),join(s.v,s.c)) EF(vproj,FL,Vector<X>(project(s.v,range(0u,s.n)))) EF(vnorm,FL,norm(s.v)) \
    BF(vinpl,FL, Vector<X> t(s.v); t+=s.w; t*=s.c; t-=s.v; t/=s.c; return dg(t);) BF(vresize,FL, Vector<X> t(s.v); t.resize(s.n+3); t=s.w; Vector<X> q(std::move(t)); t=q; return dg(t,q);) \
    EF(madd,FL,Matrix<X>(s.A+s.B_),Matrix<X>(s.A-s.B_),Matrix<X>(-s.A)) EF(mscal,FL,Matrix<X>(s.c*s.A),Matrix<X>(s.A*s.c),Matrix<X>(s.A/s.c)) EF(mmul,FL,Matrix<X>(s.A*s.B_)) EF(mmul2,FL,Matrix<X>(s.W*s.C),Matrix<X>(s.C*s.W)) EF(mvec,FL,Vector<X>(s.A*s.v),Covector<X>(s.u*s.A)) EF(mtr,FL,Matrix<X>(transpose(s.C)),Matrix<X>(transpose(s.C)*s.A)) \
    EF(mnorm,FL,norm(s.A)) EF(mrown,FL,row_norms(s.A)) EF(mident,FL,Matrix<X>::identity(3u,s.z),Matrix<X>::zero(2u,3u,s.z)) \
    EF(inv,FL,inverse(s.A)) EF(luinv,FL,lu_inverse(s.A)) EF(lusolve,FL,lu_solve(s.A,s.v),lu_solve(s.A,s.C)) EF(solve_,FL,solve(s.A,s.v),solve(s.A,s.C)) \
    BF(minpl,FL, Matrix<X> t(s.A); t+=s.B_; t*=s.c; t-=s.A; t/=s.c; return dg(t);) BF(mcopy,FL, Matrix<X> t(s.A); Matrix<X> q(s.C); t=q; q=s.B_; return dg(t,q);) EF(mstr,F_APPROX,wr(s.A)+wr(s.v)+wr(s.u)) EF(mrow,FL,Covector<X>(row(s.C,0u)),Vector<X>(column(s.C,0u))) EF(minit,FL,Matrix<X>({{s.c,s.z},{s.z,s.c}}))
typedef Lin<FloatDPBounds> LinDP; typedef Lin<FloatMPBounds> LinMP; typedef Lin<FloatDPApproximation> LinA; typedef Lin<Rational> LinQ;
FAMILY(LinDP,"algebra") { using X=FloatDPBounds; LIN_OPS(0) E(gsinv,gs_inverse(s.A)) E(gssolve,gs_solve(s.A,s.v),gs_solve(s.A,s.C)) E(mid,midpoint(s.A),midpoint(s.v)) E(contr,refines(s.v,s.v),inconsistent(s.v,s.w)) }
FAMILY(LinMP,"algebra") { using X=FloatMPBounds; LIN_OPS(0) E(gsinv,gs_inverse(s.A)) E(gssolve,gs_solve(s.A,s.v)) }
FAMILY(LinA,"algebra") { using X=FloatDPApproximation; LIN_OPS(F_APPROX) BF(tri,F_APPROX, auto t=triangular_decomposition(s.A); return dg(std::get<1>(t),std::get<2>(t));) BF(orth,F_APPROX, auto t=orthogonal_decomposition(s.A); return dg(std::get<0>(t),std::get<1>(t));) BF(gsch,F_APPROX, auto t=gram_schmidt_orthogonalisation(s.A); return dg(std::get<0>(t),std::get<1>(t));) }
FAMILY(LinQ,"algebra") { using X=Rational; LIN_OPS(0) }
// ---------------------------------------------------------------- differentials
template<class X_> struct Dif { typedef X_ X; u64 sd; DegreeType deg; SizeType n; X c; Vector<X> x0; Vector<Differential<X>> dx; Differential<X> p,q,t; UnivariateDifferential<X> ux,uy;
    static X mk(Rational q, u64 s) { return Mk<X>::mk(q,s/4*4); }
    static Vector<X> vec(SizeType n, Rng& r, u64 s) { Vector<X> v(n,mk(Rational(0),s)); for (SizeType i=0;i!=n;++i) v[i]=mk(rpos(r)*Rational(1,2),s); return v; }
    explicit Dif(u64 seed) : Dif(Rng(seed),seed) { }
    Dif(Rng r, u64 s) : sd(s), deg((DegreeType)r.range(1,4)), n((SizeType)r.range(1,3)), c(mk(rpos(r),s)), x0(vec(n,r,s)), dx(Differential<X>::variables(deg,x0)), p(dx[0]*dx[n-1]+c), q(sqr(dx[0])*c+dx[n-1]), t(hlf(dx[0])*c), ux(UnivariateDifferential<X>::variable(deg,c)), uy(sqr(ux)+ux*c) { } };
#define DIF_OPS(FL) \
    EF(add,FL,s.p+s.q,s.p-s.q) EF(mul,FL,s.p*s.q) EF(div,FL,s.p/s.q) EF(addc,FL,s.p+s.c,s.p-s.c,s.p*s.c,s.p/s.c,s.c+s.p,s.c-s.p,s.c*s.p,s.c/s.p) EF(rec_,FL,rec(s.q)) EF(sqr_,FL,sqr(s.p)) EF(pow_,FL,pow(s.p,3),pow(s.q,-2)) EF(sqrt_,FL,sqrt(s.q)) EF(exp_,FL,exp(s.t)) EF(log_,FL,log(s.q)) EF(sin_,FL,sin(s.p)) EF(cos_,FL,cos(s.p)) EF(tan_,FL,tan(s.t)) EF(atan_,FL,atan(s.p)) EF(neg,FL,-s.p,+s.q) EF(abs_,FL,abs(s.p),max(s.p,s.q),min(s.p,s.q)) \
    EF(deriv,FL,derivative(s.p,0u)) EF(antid,FL,antiderivative(s.p,0u)) EF(grad,FL,s.p.gradient(),s.q.value()) EF(hess,FL,s.p.hessian(),s.q.half_hessian()) EF(jac,FL,s.dx.jacobian(),s.dx.value()) EF(comp,FL,compose(s.uy,s.p)) EF(consts,FL,Differential<X>::constant(s.n,s.deg,s.c),Differential<X>::variable(s.n,s.deg,s.c,0u)) \
    BF(compv,FL, Vector<Differential<X>> y(s.n,s.p); Vector<X> z(s.n,nul(s.c)); for (SizeType i=0;i!=s.n;++i) { y[i]=s.dx[i]*s.dx[0]; y[i]-=y[i].value(); } return dg(compose(s.p,y));) \
    BF(inpl,FL, Differential<X> a(s.p); a+=s.q; a*=s.c; a-=s.p; a+=s.c; a/=s.c; return dg(a);) BF(copy,FL, Differential<X> a(s.p); a=s.q; Differential<X> b(std::move(a)); a=b; return dg(a,b);) EF(str,F_APPROX,wr(s.p)) \
    EF(uadd,FL,s.ux+s.uy,s.ux-s.uy,s.ux*s.uy,s.ux*s.c) EF(udiv,FL,s.ux/s.uy,rec(s.uy)) EF(ufun,FL,sqrt(s.uy),log(s.uy)) EF(ufun2,FL,exp(s.ux),sin(s.uy),cos(s.uy),atan(s.uy)) EF(uderiv,FL,derivative(s.uy),antiderivative(s.uy),antiderivative(s.uy,s.c)) EF(ucomp,FL,compose(s.uy,s.ux-s.c)) EF(upow,FL,pow(s.uy,3),sqr(s.uy)) \
    BF(ser,FL, Series<X> a(Exp(),s.c); Series<X> b(Sin(),s.c); Series<X> d(Rec(),s.c); std::string o; for (DegreeType i=0;i<6;++i) o+=dg(a[i],b[i],d[5-i]); return o;) BF(ser2,FL, Series<X> a(Sqrt(),s.c); Series<X> b(Log(),s.c); Series<X> d(Atan(),s.c); std::string o; for (DegreeType i=0;i<5;++i) o+=dg(a[i],b[i],d[i]); return o;) BF(ser3,FL, Series<X> a(Tan(),s.c/8); Series<X> b(Cos(),s.c); return dg(a[5],b[6]);) BF(udser,FL, return dg(UnivariateDifferential<X>(Log(),s.deg,s.c),UnivariateDifferential<X>(s.deg,Series<X>(Exp(),s.c)));)
typedef Dif<FloatDPBounds> DifDP; typedef Dif<FloatMPBounds> DifMP; typedef Dif<FloatDPApproximation> DifA;
FAMILY(DifDP,"algebra") { using X=FloatDPBounds; DIF_OPS(0)
    B(flow, Vector<Differential<X>> f(s.n,s.p); for (SizeType i=0;i!=s.n;++i) f[i]=s.dx[i]*s.c+s.p; return dg(lie_derivative(f,f));)
    E(analytic,AnalyticFunction(Exp()).series(s.c)[4],AnalyticFunction(Sin()).series(s.c)[3]) }
FAMILY(DifMP,"algebra") { using X=FloatMPBounds; DIF_OPS(0) }
FAMILY(DifA,"algebra") { using X=FloatDPApproximation; DIF_OPS(F_APPROX) }
// ---------------------------------------------------------------- expansions and multi-indices
struct Exps { typedef FloatDPBounds X; Expansion<MultiIndex,X> e; Expansion<MultiIndex,FloatMPBounds> em; SortedExpansion<MultiIndex,X,GradedIndexLess> se; MultiIndex a,b; std::vector<MultiIndex> ix; X x;
    explicit Exps(u64 seed) : Exps(Rng(seed)) { }
    explicit Exps(Rng r) : e(3u,X(0,dp)), em(3u,FloatMPBounds(0,MultiplePrecision(96))), se(3u,X(0,dp)), a({1,0,2}), b({0,3,1}), x(Dyadic(Integer(r.range(1,99)),3u),dp) {
        long n=r.range(1,20); for (long i=0;i<n;++i) { MultiIndex k({(DegreeType)r.below(3),(DegreeType)r.below(3),(DegreeType)r.below(2)}); X c(Dyadic(Integer(r.range(-99,99)),(Nat)r.below(4)),dp); ix.push_back(k); e.append(k,c); em.append(k,FloatMPBounds(c,MultiplePrecision(96))); } 
        Expansion<MultiIndex,X> t(e); t.sort(GradedIndexLess()); t.combine_terms(); se=SortedExpansion<MultiIndex,X,GradedIndexLess>(t); } };
FAMILY(Exps,"algebra") {
    B(sortg, Expansion<MultiIndex,FloatDPBounds> t(s.e); t.sort(GradedIndexLess()); return dg(t);) B(sortr, Expansion<MultiIndex,FloatDPBounds> t(s.e); t.sort(ReverseLexicographicIndexLess()); return dg(t);)
    B(comb, Expansion<MultiIndex,FloatDPBounds> t(s.e); t.sort(GradedIndexLess()); t.combine_terms(); t.remove_zeros(); return dg(t);) B(combm, Expansion<MultiIndex,FloatMPBounds> t(s.em); t.sort(GradedIndexLess()); t.combine_terms(); t.remove_zeros(); return dg(t);)
    B(sortm, Expansion<MultiIndex,FloatMPBounds> t(s.em); t.sort(ReverseLexicographicIndexLess()); return dg(t);)
    B(app, Expansion<MultiIndex,FloatDPBounds> t(s.e); t.append(s.a,s.x); t.append_sum(s.a,s.b,s.x); t.prepend(s.b,s.x); return dg(t);) B(appm, Expansion<MultiIndex,FloatMPBounds> t(s.em); FloatMPBounds y(s.x,MultiplePrecision(96)); for (int i=0;i<9;++i) t.append(s.a,y); t.append_sum(s.a,s.b,y); return dg(t);)
    B(cp, Expansion<MultiIndex,FloatDPBounds> t(3u,s.x); t=s.e; Expansion<MultiIndex,FloatDPBounds> q(std::move(t)); t=q; t.clear(); t.reserve(17); t.append(s.a,s.x); t.resize(5); return dg(q,t.size());) B(cpm, Expansion<MultiIndex,FloatMPBounds> t(s.em); Expansion<MultiIndex,FloatMPBounds> q(2u,FloatMPBounds(0,MultiplePrecision(24))); q=t; t=s.em; q.clear(); return dg(t,q.size());)
    B(erase, Expansion<MultiIndex,FloatDPBounds> t(s.e); t.erase(t.begin()); t.check(); return dg(t);) B(ins, SortedExpansion<MultiIndex,FloatDPBounds,GradedIndexLess> t(s.se); t.insert(s.a,s.x); t.set(s.b,s.x); t.at(s.a)=s.x; return dg(t);)
    E(find,s.se.find(s.ix[0])==s.se.end(),s.e.find(s.ix[0])==s.e.end(),FloatDPBounds(s.se.get(s.ix[0]))) E(embed_,embed(2u,s.e,1u)) EF(str,F_APPROX,wr(s.e)) E(cmp,s.e.same_as(s.e)) E(maps,Expansion<MultiIndex,FloatDPBounds>(s.e).number_of_terms())
    B(mi, MultiIndex k(s.a); k+=s.b; ++k; k[0]=4; MultiIndex l=k+s.a; l*=2; l-=s.a; return dg(wr(l),wr(s.a+s.b),wr(s.a*3),graded_less(s.a,s.b),lexicographic_less(s.a,s.b),l.degree());) B(mi2, MultiIndex k(3); std::string o; for (int i=0;i<25;++i) { ++k; o+=wr(k); } MultiIndex q(std::move(k)); k=s.a; return o+wr(q)+wr(k)+wr(MultiIndex::unit(4,2))+wr(MultiIndex::zero(2));)
}
// ---------------------------------------------------------------- containers
struct Cont { Array<Rational> a,b; Array<FloatMP> m; List<String> l; Map<String,Integer> mp; Set<Integer> st; 
    explicit Cont(u64 seed) : Cont(Rng(seed)) { }
    explicit Cont(Rng r) : a((SizeType)r.range(1,9),Rational(0)), b((SizeType)r.range(1,9),rq(r)), m((SizeType)r.range(1,7),FloatMP(Dyadic(r.range(1,9)),MultiplePrecision(80))) { for (auto& x : a) x=rq(r); for (int i=0;i<6;++i) { l.append(String("element number ")+std::to_string(r.below(1000))); mp.insert(l[i],Integer(r.range(0,99999))); st.insert(Integer(r.range(0,20))); } } };
template<class T> std::string dlist(T const& t) { NoFail nf; std::string o; for (auto const& x : t) o+=dg(x); return o; }
FAMILY(Cont,"algebra") {
    B(acopy, Array<Rational> t(s.a); return dlist(t);) B(aassign, Array<Rational> t(s.a); t=s.b; return dlist(t)+dlist(s.b);) B(amove, Array<Rational> t(s.a); Array<Rational> q(std::move(t)); t=std::move(q); return dlist(t);) B(aresize, Array<Rational> t(s.a); t.resize(t.size()+r.range(0,9)); return dlist(t);) B(ashrink, Array<Rational> t(s.a); t.resize(1); return dlist(t);) B(aresv, Array<Rational> t(s.a); t.resize(3,Rational(7)); return dlist(t);) B(arealloc, Array<Rational> t(s.a); t.reallocate(4); t=s.a; return dlist(t);) B(afill, Array<Rational> t(s.a); t.fill(Rational(1,3)); return dlist(t);) B(ainit, Array<Rational> t({Rational(1),Rational(2,7)}); Array<Rational> q(s.a.begin(),s.a.end()); return dlist(t)+dlist(q);) B(agen, Array<Rational> t(5u,[](SizeType i){ return Rational(Integer((int)i),Integer(3)); }); return dlist(t);) B(aswap, Array<Rational> t(s.a); Array<Rational> q(s.b); t.swap(q); return dlist(t)+dlist(q);) B(aconv, Array<Rational> t(s.a); return dg(t==s.a,t==s.b);)
    B(mcopy, Array<FloatMP> t(s.m); Array<FloatMP> q(2u,FloatMP(1,MultiplePrecision(20))); q=t; return dlist(q);) 
    B(lops, List<String> t(s.l); t.append(String("another element to append")); t.concatenate(s.l); t.pop_back(); return dlist(t);) B(ljoin, return dlist(catenate(s.l,s.l));)
    B(mops, Map<String,Integer> t(s.mp); t.insert(String("a key not there yet"),Integer(5)); t[s.l[0]]=Integer(7); t.erase(s.l[1]); std::string o=wr(t); o+=wr(t.keys())+wr(t.values()); return o+dg(t.has_key(s.l[0]),t.get(s.l[0]));) B(mjoin, Map<String,Integer> t; t.insert(String("xyz"),Integer(1)); t.adjoin(s.mp); return wr(t)+wr(restrict_keys(s.mp,Set<String>({s.l[0]})));)
    B(sops, Set<Integer> t(s.st); t.insert(Integer(77)); t.adjoin(Set<Integer>({Integer(5),Integer(6)})); t.remove(Integer(5)); return wr(t)+wr(intersection(t,s.st))+wr(join(s.st,t))+wr(difference(t,s.st))+dg(subset(s.st,t),disjoint(s.st,t),s.st.contains(Integer(3)));)
}
}
