// Functions, models, polynomials, expressions, spaces and valuations changed in place.
#include "digest.hpp"
#include "function/taylor_model.hpp"
#include "function/taylor_function.hpp"
#include "function/function.hpp"
#include "function/polynomial.hpp"
#include "function/affine.hpp"
#include "function/affine_model.hpp"
#include "function/procedure.hpp"
#include "function/formula.hpp"
#include "function/constraint.hpp"
#include "symbolic/expression.hpp"
#include "symbolic/space.hpp"
#include "symbolic/valuation.hpp"
#include "symbolic/assignment.hpp"
#include "algebra/algebra.hpp"
#include "algebra/sweeper.hpp"
#include "algebra/expansion.inl.hpp"
#include "mutables.hpp"
using namespace Ariadne; using namespace sim; using sim::dg; using sim::Rng; using sim::wr;
namespace {
typedef EffectiveScalarMultivariateFunction ESF; typedef EffectiveVectorMultivariateFunction EVF;
static Rational rs(Rng& r) { return Rational(Integer(r.range(-80,80)),Integer(100)); }
static FloatDPBounds rb(Rng& r) { return FloatDPBounds(rs(r),dp); }
static ESF ef(Rng& r, SizeType n) { auto x=EVF::identity(n); ESF f=x[0]*Real(rs(r))+x[n-1]; if (r.chance(1,2)) f=f*x[0]+sin(x[n-1]); if (r.chance(1,2)) f=exp(f/Real(9))-f; return f; }
// ---------------------------------------------------------------- Taylor models
template<class F> struct MTay { typedef TaylorModel<ValidatedTag,F> TM; typedef PrecisionType<F> PR; PR pr; TM f,g; Vector<TM> v;
    static PR mk() { if constexpr (std::is_same_v<F,FloatDP>) return dp; else return MultiplePrecision(96); }
    static Sweeper<F> sw(Rng& r) { PR pr=mk(); return r.chance(1,2)?Sweeper<F>(GradedSweeper<F>(pr,(DegreeType)r.range(1,4))):Sweeper<F>(ThresholdSweeper<F>(pr,F(Dyadic(1,12u),pr))); }
    static Bounds<F> b(Rng& r) { return Bounds<F>(rs(r),mk()); }
    explicit MTay(u64 s) : MTay(Rng(s)) { } explicit MTay(Rng r) : pr(mk()), f(TM::coordinate(2,0,sw(r))), g(TM::coordinate(2,1,f.sweeper())), v(2u,g) { f=f*b(r)+g*f; }
    std::string digest() const { return dg(f,g)+dg(v[0])+std::to_string(v.size()); } };
typedef MTay<FloatDP> MTayDP; typedef MTay<FloatMP> MTayMP;
#define TAY_MUTS M(addc,s.f+=S::b(r);) M(mulc,s.f*=S::b(r);) M(addf,s.f+=s.g;) M(selfadd,s.f+=s.f; s.f*=Bounds<typename S::TM::RawFloatType>(Rational(1,4),s.pr);) M(sub,s.f-=s.g; s.g=s.f+S::b(r);) M(mul,s.f=s.f*s.g*S::b(r)+s.g;) M(sqr_,s.f=sqr(s.f)*S::b(r);) M(sweep,s.f.sweep(); s.f.simplify();) M(sweepg,s.f.sweep(GradedSweeper<typename S::TM::RawFloatType>(s.pr,1));) M(clob,s.f.clobber();) M(clear,s.f.clear(); s.f+=S::b(r);) M(asg,s.f=s.g;) M(self,s.f=s.f;) M(mov,typename S::TM t(s.g); t+=S::b(r); s.f=std::move(t); t=s.g;) M(swap,typename S::TM t(s.g); s.f.swap(t); s.g=t;) M(const_,s.f=typename S::TM::CoefficientType(Dyadic(Integer(r.range(-9,9)),3u),s.pr);) \
    M(setv,s.f.set_value(typename S::TM::CoefficientType(Dyadic(Integer(r.range(-9,9)),3u),s.pr));) M(sete,s.f.set_error((Nat)r.below(3));) M(diff,s.f.differentiate(r.below(2)); s.f=s.f+s.g;) M(anti,s.f.antidifferentiate(r.below(2));) M(unsc,s.f.unscale(IntervalDomainType(-2,2));) M(swp,auto p=S::sw(r); s.f.set_sweeper(p); s.g.set_sweeper(p); s.v[0].set_sweeper(p); s.v[1].set_sweeper(p);) M(vset,s.v[r.below(2)]=s.f;) M(vasg,s.v=Vector<typename S::TM>(2u,s.f);) M(exp_,s.f=exp(s.f/16); s.f.sweep(GradedSweeper<typename S::TM::RawFloatType>(s.pr,2));) M(gset,s.g=S::TM::coordinate(2,r.below(2),s.f.sweeper());) M(part,s.f=embed(1u,partial_evaluate(s.f,0u,S::b(r)),0u);)
MUTABLE(MTayDP,"taylor") { TAY_MUTS }
MUTABLE(MTayMP,"taylor") { TAY_MUTS }
// ---------------------------------------------------------------- Taylor functions
typedef ValidatedScalarMultivariateTaylorFunctionModelDP STF; typedef ValidatedVectorMultivariateTaylorFunctionModelDP VTF;
struct MTfn { Sweeper<FloatDP> sw; ExactBoxType D; STF f; VTF v; ValidatedScalarMultivariateFunctionPatch p; explicit MTfn(u64 s) : MTfn(Rng(s)) { }
    explicit MTfn(Rng r) : sw(GradedSweeper<FloatDP>(dp,3)), D({{-1,1},{Dyadic(-1,1u),Dyadic(3,2u)}}), f(D,ef(r,2),sw), v(VTF::identity(D,sw)), p(f) { }
    std::string digest() const { std::string o=dg(f); for (SizeType i=0;i!=v.size();++i) { STF t=v[i]; o+=dg(t); } return o+wr(p.domain()); } };
MUTABLE(MTfn,"taylor") {
    M(add,s.f+=s.f; s.f*=FloatDPBounds(Rational(1,3),dp);) M(addc,s.f+=rb(r);) M(mul,s.f=s.f*s.f*rb(r);) M(sub,s.f-=STF::coordinate(s.D,r.below(2),s.sw);) M(asg,s.f=STF(s.D,ef(r,2),s.sw);) M(self,s.f=s.f;) M(clob,s.f.clobber();) M(val,s.f.set_value(FloatDP(Dyadic(Integer(r.range(-9,9)),2u),dp));) M(err,s.f.set_error(FloatDPError((Nat)r.below(2),dp));)
    M(vset,s.v.set(r.below(s.v.size()),s.f);) M(vidx,s.v[r.below(s.v.size())]=s.f;) M(vadj,if (s.v.size()<5) s.v.adjoin(s.f); else s.v=VTF::identity(s.D,s.sw);) M(vadd,s.v+=s.v; s.v*=FloatDPBounds(Rational(1,3),dp);) M(vclob,s.v.clobber();) M(vself,s.v=s.v;) M(vasg,VTF t(s.v); s.v=VTF::identity(s.D,s.sw); if (r.chance(1,2)) s.v=t;) M(vjoin,if (s.v.size()<4) s.v=join(s.v,s.f);)
    M(restr,ExactBoxType E_({{Dyadic(-1,1u),1},{0,Dyadic(1,1u)}}); STF t(s.f); t.restrict(E_); s.p=t;) M(pasg,s.p=s.f; s.p=s.p*s.p;) M(padd,s.p=s.f; s.p+=s.p;) }
// ---------------------------------------------------------------- functions, polynomials, affine models, procedures
struct MFun { typedef MultivariatePolynomial<FloatDPBounds> P; ESF f; EVF h; ValidatedVectorMultivariateFunction g; P p; AffineModel<ValidatedTag,FloatDP> a; Affine<FloatDPBounds> af; List<EffectiveConstraint> c; Vector<P> pv;
    explicit MFun(u64 s) : MFun(Rng(s)) { } explicit MFun(Rng r) : f(ef(r,3)), h({ef(r,3),ef(r,3)}), g(h), p(P::coordinate(2,0,dp)), a(Affine<FloatDPBounds>(Covector<FloatDPBounds>(2u,rb(r)),rb(r))), af(Covector<FloatDPBounds>(2u,rb(r)),rb(r)), pv(2u,p) { }
    static std::string dp_(P const& p) { std::string o; for (auto t : p.expansion()) o+=std::to_string((int)t.index()[0])+std::to_string((int)t.index()[1])+dg(FloatDPBounds(t.coefficient())); return o; }
    std::string digest() const { std::string o=wr(f)+wr(h)+wr(g)+dp_(p)+dp_(pv[0])+dp_(pv[1])+dg(a.value())+dg(a.error())+dg(a.gradient(0))+dg(af.value())+dg(af.gradient(1))+wr(c); return o; } };
MUTABLE(MFun,"function") { typedef MFun::P P;
    M(fadd,s.f=s.f+ef(r,3); if (wr(s.f).size()>900) s.f=ef(r,3);) M(fmul,s.f=s.f*s.f; if (wr(s.f).size()>900) s.f=ef(r,3);) M(fasg,ESF t(s.f); s.f=ef(r,3); if (r.chance(1,2)) s.f=t;) M(hset,s.h[r.below(2)]=ef(r,3);) M(hasg,s.h={ef(r,3),s.f};) M(hcopy,EVF t(s.h); t[0]=s.f; if (r.chance(1,2)) s.h=t;) M(hjoin,s.h=join(s.f,s.h[0]);) M(gset,s.g[0]=ValidatedScalarMultivariateFunction(s.f);) M(gasg,s.g=s.h;) M(gcopy,auto t=s.g; t[1]=t[0]; if (r.chance(1,2)) s.g=t;)
    M(padd,s.p+=P::coordinate(2,1,dp); s.p+=rb(r);) M(pmul,s.p=s.p*(P::coordinate(2,r.below(2),dp)+rb(r)); if (s.p.degree()>5) s.p=truncate(s.p,2);) M(pmulc,s.p*=rb(r);) M(pidx,s.p[MultiIndex({(DegreeType)r.below(3),(DegreeType)r.below(3)})]=rb(r);) M(pins,s.p.reserve(20);) M(pclear,s.p.clear(); s.p+=rb(r);) M(pclean,s.p+=s.p; s.p-=s.p; s.p.cleanup();) M(pasg,s.p=s.pv[0];) M(pself,s.p=s.p;) M(pv,s.pv[r.below(2)]=s.p;) M(pva,s.pv=Vector<P>(2u,s.p);) M(psub,s.p-=s.p; s.p+=P::coordinate(2,0,dp);)
    M(aset,s.a.set_value(FloatDP(Dyadic(Integer(r.range(-9,9)),2u),dp)); s.a.set_gradient(0u,FloatDP(3,dp)); s.a.set_error(1u);) M(aasg,AffineModel<ValidatedTag,FloatDP> t(s.a); t.set_value(FloatDP(2,dp)); s.a=t; s.a=s.a;) M(afs,s.af=s.af+s.af; s.af=s.af*rb(r);) M(capp,if (s.c.size()<4) s.c.append(s.f<=Real(rs(r))); else s.c.clear();) M(casg,List<EffectiveConstraint> t(s.c); t.append(ef(r,3)>=Real(0)); s.c=t; if (s.c.size()>4) s.c.clear();) }
struct MSym { RealVariable x,y; RealExpression e; RealSpace spc; Valuation<Real> v; List<RealAssignment> as; Map<RealVariable,RealExpression> m; ContinuousPredicate q; DiscreteValuation d; EffectiveFormula fo;
    explicit MSym(u64 s) : MSym(Rng(s)) { } explicit MSym(Rng r) : x("x"), y("y"), e(x+Real(rs(r))*y), spc({x,y}), q(x<=y), fo(EffectiveFormula::coordinate(0)) { }
    std::string digest() const { std::string o=wr(e)+wr(spc)+wr(as)+wr(q)+wr(d)+wr(fo); for (auto& k : m) o+=wr(k.first)+wr(k.second); for (auto& k : v.values()) o+=wr(k.first)+dg(k.second.get(dp)); return o; } };
MUTABLE(MSym,"symbolic") {
    M(eadd,s.e=s.e+sin(s.x)*Real(rs(r)); if (count_nodes(s.e)>60) s.e=s.x;) M(emul,s.e=s.e*s.e; if (count_nodes(s.e)>60) s.e=s.y;) M(esub,s.e=substitute(s.e,List<RealAssignment>({let(s.x)=s.y*s.y})); if (count_nodes(s.e)>60) s.e=s.x*s.y;) M(esimp,s.e=simplify(s.e);) M(ecse,eliminate_common_subexpressions(s.e);) M(eder,s.e=derivative(s.e,s.y); s.e=s.e+s.x; if (count_nodes(s.e)>60) s.e=s.y;) M(easg,RealExpression t(s.e); s.e=RealExpression::constant(Real(rs(r))); if (r.chance(2,3)) s.e=t;)
    M(sapp,RealVariable w("a variable with a long name "+std::to_string(r.below(5))); if (!s.spc.contains(w)) s.spc.append(w);) M(sins,RealVariable w("another with a long name "+std::to_string(r.below(5))); s.spc.insert(w);) M(sadj,s.spc.adjoin(RealSpace({s.y,RealVariable("t")}));) M(sasg,s.spc=RealSpace({s.x,s.y}); if (r.chance(1,2)) s.spc=join(s.spc,RealSpace({RealVariable("z")}));)
    M(vset,s.v.set(RealVariable("value "+std::to_string(r.below(6))),Real(rs(r)));) M(vins,RealVariable w("long variable name "+std::to_string(r.below(99))); s.v.insert(w,Real(rs(r)));) M(vasg,Valuation<Real> t(s.v); t.set(s.x,Real(3)); s.v=t;) M(vclr,s.v=Valuation<Real>();) M(asapp,s.as.append(let(RealVariable("w"+std::to_string(r.below(9))))=s.e); if (s.as.size()>6) s.as.clear();) M(mset,s.m[s.x]=s.e; s.m[RealVariable("k"+std::to_string(r.below(4)))]=s.e+s.y;) M(mera,s.m.erase(s.x);)
    M(pand,s.q=s.q && (s.x*s.y>=Real(rs(r))); if (wr(s.q).size()>300) s.q=(s.x>=0);) M(pnot,s.q=!s.q; if (wr(s.q).size()>300) s.q=(s.x>=0);) M(dset,s.d.set(StringVariable("mode"),String(r.chance(1,2)?"a long name of a location":"off"));) M(dins,s.d.set(IntegerVariable("n"),Integer(r.range(0,9)));) M(fmul,s.fo=s.fo*EffectiveFormula::coordinate(r.below(2))+s.fo; if (wr(s.fo).size()>500) s.fo=EffectiveFormula::coordinate(0);) M(fexp,s.fo=exp(s.fo)-EffectiveFormula::constant(EffectiveNumber(Real(rs(r)))); if (wr(s.fo).size()>500) s.fo=EffectiveFormula::coordinate(1);) }
}
