// Functions, polynomials, procedures, affine functions and models, Chebyshev polynomials, multifunctions, measurable functions.
#include "digest.hpp"
#include "digest_num.hpp"
#include "numeric/numeric.hpp"
#include "algebra/algebra.hpp"
#include "algebra/differential.hpp"
#include "algebra/sweeper.hpp"
#include "algebra/expansion.inl.hpp"
#include "function/function.hpp"
#include "function/formula.hpp"
#include "function/polynomial.hpp"
#include "function/affine.hpp"
#include "function/affine_model.hpp"
#include "function/taylor_function.hpp"
#include "function/taylor_multifunction.hpp"
#include "function/multifunction.hpp"
#include "function/measurable_function.hpp"
#include "function/constraint.hpp"
#include "geometry/union_of_intervals.hpp"
#include "geometry/measurable_set.hpp"
#include "symbolic/expression.hpp"
#include "symbolic/space.hpp"
#include "catalogue.hpp"
using namespace Ariadne; using namespace sim;
namespace {
static Rational rq(Rng& r) { return Rational(Integer(r.range(-90,90)),Integer(r.range(1,16))); }
static Rational rs(Rng& r) { return Rational(Integer(r.range(-80,80)),Integer(100)); }
typedef EffectiveScalarMultivariateFunction ESF; typedef EffectiveVectorMultivariateFunction EVF; typedef EffectiveScalarUnivariateFunction ESU;
static ESF ef(Rng& r, SizeType n) { auto x=EVF::identity(n); ESF f=x[0]*Real(rs(r))+x[n-1]; long k=r.range(1,4); for (long i=0;i<k;++i) switch (r.below(7)) { case 0: f=f*x[r.below(n)]+Real(rs(r)); break; case 1: f=sin(f/4); break; case 2: f=f+sqr(x[r.below(n)])/2; break; case 3: f=exp(x[0]/4)+f; break; case 4: f=cos(x[n-1]/2)*f; break; case 5: f=f/Real(3)+pow(x[0],2); break; default: f=f-Real(rs(r)); } return f; }
template<class X> static std::string dd(Differential<X> const& d) { NoFail nf; std::string s; for (auto const& t : d.expansion()) s+=Dig::dig_index(t.index())+":"+Dig::dig(t.coefficient()); return s; }
template<class X> static std::string dcv(Covector<X> const& v) { NoFail nf; std::string s="C("; for (SizeType i=0;i!=v.size();++i) s+=Dig::dig(v[i]); return s+")"; }
template<class I, class X> static std::string dpoly(Polynomial<I,X> const& p) { NoFail nf; std::string s="P("; for (auto const& t : p.expansion()) s+=Dig::dig_index(t.index())+":"+Dig::dig(t.coefficient()); return s+")"; }

// ---------------------------------------------------------------- symbolic functions
struct Fun { EVF id; ESF f,g; EVF h; ESU u,w; ValidatedScalarMultivariateFunction vf; Vector<FloatDPBounds> v; Vector<FloatDPApproximation> va; Vector<FloatMPBounds> vm; Vector<Real> vr; FloatDPBounds t;
    explicit Fun(u64 s) : Fun(Rng(s)) { }
    explicit Fun(Rng r) : id(EVF::identity(3)), f(ef(r,3)), g(ef(r,3)), h({ef(r,3),ef(r,3),id[1]*id[2]}), u(sin(ESU::coordinate())*Real(rs(r))+sqr(ESU::coordinate())), w(exp(ESU::coordinate()/Real(4))), vf(f), v(3u,[&](SizeType){ return FloatDPBounds(rs(r),dp); }), va(3u,[&](SizeType){ return FloatDPApproximation(rs(r),dp); }), vm(3u,[&](SizeType){ return FloatMPBounds(rs(r),MultiplePrecision(80)); }), vr(3u,[&](SizeType){ return Real(rs(r)); }), t(rs(r),dp) { }
};
FAMILY(Fun,"function") {
    E(evf,s.f(s.v)) EF(evfa,F_APPROX,s.f(s.va)) E(evfm,s.f(s.vm)) E(evg,evaluate(s.g,s.v)) E(evh,s.h(s.v)) E(evhm,s.h(s.vm)) E(evu,s.u(s.t),s.w(s.t)) E(evv,s.vf(s.v)) EF(evva,F_APPROX,s.vf(s.va)) EF(evr,F_SLOW,s.f(s.vr).compute(Effort(2)).get(dp))
    E(add,(s.f+s.g)(s.v)) E(sub,(s.f-s.g)(s.v)) E(mul,(s.f*s.g)(s.v)) E(divf,(s.f/(2+sqr(s.g)))(s.v)) E(scal,(s.f*Real(rs(r)))(s.v),(Real(2)/3-s.g)(s.v)) E(neg,(-s.f)(s.v)) E(powf,pow(s.f,(Int)r.range(0,3))(s.v)) E(trans,sqrt(1+sqr(s.f))(s.v),log(2+sqr(s.g))(s.v),atan(s.f)(s.v),tan(s.g/8)(s.v)) E(absf,abs(s.f)(s.v),max(s.f,s.g)(s.v),min(s.f,s.g)(s.v))
    E(addv,(s.vf+s.f)(s.v),(s.vf*s.vf)(s.v),exp(s.vf/4)(s.v)) E(addh,(s.h+s.id)(s.v),(s.h-s.id)(s.v),(s.f*s.h)(s.v))
    E(der,derivative(s.f,r.below(3))(s.v)) E(derh,s.h.derivative(r.below(3))(s.v)) E(deru,derivative(s.u)(s.t),s.u.slope(s.t)) E(der2,derivative(derivative(s.g,0),r.below(3))(s.v))
    E(grad,dcv(gradient(s.f,s.v))) E(gradm,dcv(gradient(s.f,s.vm))) E(jac,jacobian(s.h,s.v)) E(jacm,s.h.jacobian(s.vm)) E(diff,dd(s.f.differential(s.v,(DegreeType)r.range(1,3)))) E(diffm,dd(differential(s.g,s.vm,2))) E(diffv,dd(s.vf.differential(s.v,2)))
    E(comp,compose(s.f,s.h)(s.v)) E(compv,compose(s.h,s.h)(s.v)) E(compu,compose(s.u,s.f)(s.v)) E(compvv,compose(s.vf,s.h)(s.v))
    E(join,join(s.f,s.g)(s.v),join(s.h,s.f)(s.v)) E(elem,s.h[r.below(3)](s.v)) B(setel,EVF h(s.h); h[1]=s.f; return dg(h(s.v),s.h(s.v));) B(inpl,ESF f(s.f); f+=s.g; f=f*2; return dg(f(s.v),s.f(s.v));)
    EF(str,F_APPROX,wr(s.f),wr(s.h),wr(s.u)) EF(strv,F_APPROX,wr(s.vf)) E(info,s.h.result_size(),s.h.argument_size(),s.f.argument_size())
    E(cons,wr(s.f<=Real(2)),wr(Real(1)<=s.g)) B(asg,ESF f(s.f); f=s.g; ESF g(f); return dg(g(s.v));) B(asgh,EVF h(s.h); h=s.id; return dg(h(s.v));) B(conv,ValidatedVectorMultivariateFunction h(s.h); ApproximateScalarMultivariateFunction a(s.f); return dg(h(s.v));)
    B(badder,return dg(derivative(s.f,7u)(s.v));)
    E(zero,ESF::zero(3u)(s.v),ESF::constant(3u,Real(rs(r)))(s.v)) B(tay,ValidatedScalarMultivariateTaylorFunctionModelDP m(ExactBoxType(3u,ExactIntervalType(-1,1)),s.f,GradedSweeper<FloatDP>(dp,2)); return dg(m);)
}
// ---------------------------------------------------------------- polynomials
template<class X> struct PolyOf { typedef MultivariatePolynomial<X> P; typedef UnivariatePolynomial<X> U; typedef PrecisionType<X> PR; PR pr; P p,q; U u; Vector<X> v; X c;
    static PR mk() { if constexpr (std::is_same_v<PR,DoublePrecision>) return dp; else return MultiplePrecision(90); }
    static P rp(Rng& r, PR pr) { P x=P::coordinate(2,0,pr), y=P::coordinate(2,1,pr); P p=x*X(rs(r),pr)+X(rq(r),pr); long n=r.range(1,3); for (long i=0;i<n;++i) p=p*(r.below(2)?x:y)+X(rs(r),pr); return p; }
    explicit PolyOf(u64 s) : PolyOf(Rng(s)) { }
    explicit PolyOf(Rng r) : pr(mk()), p(rp(r,pr)), q(rp(r,pr)), u(U::coordinate(pr)*X(rs(r),pr)+X(rs(r),pr)), v(2u,[&](SizeType){ return X(rs(r),pr); }), c(rq(r),pr) { u=u*u+X(rs(r),pr); }
};
typedef PolyOf<FloatDPBounds> PolyDP; typedef PolyOf<FloatMPBounds> PolyMP;
#define POLYOPS \
    E(add,dpoly(s.p+s.q)) E(sub,dpoly(s.p-s.q)) E(mul,dpoly(s.p*s.q)) E(neg,dpoly(-s.p)) E(addc,dpoly(s.p+s.c),dpoly(s.c-s.q)) E(mulc,dpoly(s.p*s.c)) E(divc,dpoly(s.p/S::P::NumericType(3,s.pr))) E(eval,evaluate(s.p,s.v))  \
    E(der,dpoly(derivative(s.p,r.below(2)))) E(anti,dpoly(antiderivative(s.p,r.below(2)))) E(trunc,dpoly(truncate(s.p,(DegreeType)r.range(0,3)))) E(comp,dpoly(compose(s.p,Vector<typename S::P>({s.q,s.p})))) \
    EF(str,F_APPROX,wr(s.p)) E(info,s.p.argument_size(),s.p.degree(),s.p.number_of_terms()) B(inpl,typename S::P t(s.p); t+=s.q; t*=s.c; t-=s.p; return dg(dpoly(t),dpoly(s.p));) B(idx,typename S::P t(s.p); t[MultiIndex({1,1})]=s.c; return dg(dpoly(t),s.p[MultiIndex({1,0})]);) \
    E(uadd,evaluate(s.u+s.u,s.v[0])) E(umul,evaluate(s.u*s.u,s.v[0])) E(uev,evaluate(s.u,s.v[0])) EF(ustr,F_APPROX,wr(s.u)) B(badev,return dg(evaluate(s.p,Vector<typename S::P::NumericType>(3u,s.c)));)  B(asg,typename S::P t(s.p); t=s.q; t=typename S::P(s.p); return dg(dpoly(t));)
FAMILY(PolyDP,"function") { POLYOPS }
FAMILY(PolyMP,"function") { POLYOPS }
// ---------------------------------------------------------------- affine functions and models
typedef AffineModel<ValidatedTag,FloatDP> AM;
static std::string daf(Affine<FloatDPBounds> const& f) { NoFail nf; std::string t=Dig::dig(f.value()); for (SizeType j=0;j!=f.argument_size();++j) t+=Dig::dig(f.gradient(j)); return t; }
static std::string dam(AM const& f) { NoFail nf; std::string t=Dig::dig(f.value())+Dig::dig(f.error()); for (SizeType j=0;j!=f.argument_size();++j) t+=Dig::dig(f.gradient(j)); return t; }
struct Aff { Affine<FloatDPBounds> f,g; Affine<FloatDPApproximation> a; AM m,n; Vector<FloatDPBounds> v; FloatDPBounds c; ExactBoxType D; ESF e;
    explicit Aff(u64 s) : Aff(Rng(s)) { }
    static Covector<FloatDPBounds> cv(Rng& r) { return Covector<FloatDPBounds>(2u,[&](SizeType){ return FloatDPBounds(rs(r),dp); }); }
    explicit Aff(Rng r) : f(cv(r),FloatDPBounds(rs(r),dp)), g(cv(r),FloatDPBounds(rs(r),dp)), a(f), m(f), n(g), v(2u,[&](SizeType){ return FloatDPBounds(rs(r),dp); }), c(rq(r),dp), D({{-1,1},{-1,1}}), e(ef(r,2)) { }
};
FAMILY(Aff,"function") {
    E(ev,s.f.evaluate(s.v)) E(add,daf(s.f+s.g)) E(sub,daf(s.f-s.g),daf(s.c-s.f)) E(mul,daf(s.f*s.c),daf(s.c*s.g)) E(div,daf(s.f/FloatDPBounds(3,dp))) E(neg,daf(-s.f)) E(der,derivative(s.f,r.below(2))) EF(str,F_APPROX,wr(s.f),wr(s.a),wr(s.m)) E(coord,daf(Affine<FloatDPBounds>::coordinate(3,1,dp)))
    E(minfo,s.m.range(),s.m.error(),s.m.value(),s.m.argument_size()) E(mk,dam(AM(s.g)),dam(AM(s.f)))
    E(mt,dam(affine_model(s.D,ValidatedScalarMultivariateFunction(s.e),dp))) B(mtay,ValidatedScalarMultivariateTaylorFunctionModelDP t(s.D,s.e,GradedSweeper<FloatDP>(dp,3)); return dg(dam(affine_model(t.model())));) B(asg,AM t(s.m); t=s.n; return dg(dam(t));) B(bad,return dg(s.f.evaluate(Vector<FloatDPBounds>(3u,s.c)));)
}
// ---------------------------------------------------------------- multifunctions
struct Multi { typedef ValidatedIntervalTaylorFunctionModel<FloatMP> SF; typedef ValidatedVectorIntervalTaylorFunctionModel<FloatMP> VF; typedef Interval<FloatMPUpperBound> Ivl; MultiplePrecision pr; Sweeper<FloatMP> sw; BoxDomainType D; SF x0,x1,f,g; VF h; Vector<FloatMPBounds> v; EVF ff; BoxDomainType prm; ValidatedVectorMultivariateMultifunctionPatch mp;
    static Ivl iv(Rng& r, MultiplePrecision pr) { long a=r.range(-6,6); return Ivl((Int)a,(Int)(a+r.range(0,3)),pr); }
    explicit Multi(u64 s) : Multi(Rng(s)) { }
    explicit Multi(Rng r) : pr(128), sw(ThresholdSweeper<FloatMP>(pr,FloatMP(Dyadic(1,20u),pr))), D({{-1,+1},{-1,+1}}), x0(SF::coordinate(D,0,sw)), x1(SF::coordinate(D,1,sw)), f(iv(r,pr)*x0*x1+iv(r,pr)), g(iv(r,pr)*x0+x1), h({f,g}), v(2u,[&](SizeType){ return FloatMPBounds(rs(r),MultiplePrecision(128)); }), ff({ESF::coordinate(3,0)*ESF::coordinate(3,0)*Real(rs(r))+ESF::coordinate(3,2),ESF::coordinate(3,0)}), prm({{-1,1}}), mp(ff,prm) { }
};
FAMILY(Multi,"function") {
    E(ev,s.f(s.v),s.g(s.v)) E(add,(s.f+s.g)(s.v)) E(sub,(s.f-s.g)(s.v)) E(mul,(s.f*s.g)(s.v)) E(hev,s.h(s.v)) EF(str,F_APPROX,wr(s.f)) E(model,s.f.model()) B(asg,Multi::SF t(s.f); t=s.g; return dg(t(s.v));) EF(mpstr,F_APPROX,wr(s.mp)) BF(mpev,F_APPROX,Vector<ValidatedNumber> w(2u,[&](SizeType){ return ValidatedNumber(Rational(1,2)); }); return dg(wr(s.mp(w)));)
    B(mk,ValidatedVectorMultivariateMultifunction m(s.mp); Vector<ValidatedNumber> w(2u,[&](SizeType){ return ValidatedNumber(Rational(1,4)); }); auto t=m(w); (void)t; return std::string("ok");)
}
// ---------------------------------------------------------------- measurable functions
struct Meas { UnionOfIntervals<Dyadic> iv; ValidatedOpenSet<Real> op; RealVariable x; ValidatedContinuousFunction<Real(Real)> f; IntervalDomainType D; FanModel<Real(Real),DP> fm;
    explicit Meas(u64 s) : Meas(Rng(s)) { }
    explicit Meas(Rng r) : iv({{1,2},{Dyadic(3,1u),Dyadic(5,1u)},{0,Dyadic((Int)r.range(1,3),2u)}}), op(wrap_open(iv)), x("x"), f(make_function(x,x*x)), D(-1,3), fm(D,f,Error<FloatDP>(Dyadic(3,5u),dp)) { }
};
FAMILY(Meas,"function") {
    EF(str,F_APPROX,wr(s.iv),wr(s.f),wr(s.fm)) E(meas,s.iv.measure()) EF(pre,F_APPROX,wr(preimage(s.f,s.op,s.D,Accuracy(exp2(-3))))) E(inter,wr(intersection(s.iv,s.iv)))
}
}
