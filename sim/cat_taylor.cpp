// Taylor models and Taylor functions.
#include "digest.hpp"
#include "function/taylor_model.hpp"
#include "function/taylor_function.hpp"
#include "function/function_patch.hpp"
#include "function/function.hpp"
#include "function/affine.hpp"
#include "algebra/algebra.hpp"
#include "algebra/sweeper.hpp"
#include "algebra/expansion.inl.hpp"
#include "catalogue.hpp"
using namespace Ariadne; using namespace sim;
namespace {
static Rational rq(Rng& r) { return Rational(Integer(r.range(-90,90)),Integer(r.range(1,16))); }
static Rational rs(Rng& r) { return Rational(Integer(r.range(-80,80)),Integer(100)); }
template<class F> struct PrOf; template<> struct PrOf<FloatDP> { static DoublePrecision pr() { return dp; } }; template<> struct PrOf<FloatMP> { static MultiplePrecision pr() { return MultiplePrecision(96); } };
template<class F> static Sweeper<F> rsw(Rng& r) { auto pr=PrOf<F>::pr(); switch (r.below(6)) { case 0: return ThresholdSweeper<F>(pr,F(Dyadic(1,17u),pr)); case 1: return ThresholdSweeper<F>(pr,F(Dyadic(1,10u),pr)); case 2: return GradedSweeper<F>(pr,(DegreeType)r.range(2,5)); case 3: return GradedThresholdSweeper<F>(pr,4,F(Dyadic(1,16u),pr)); case 4: return RelativeThresholdSweeper<F>(pr,F(Dyadic(1,13u),pr)); default: return ThresholdSweeper<F>(pr,F(Dyadic(1,14u),pr)); } }
// of bounded degree: compositions of long expansions take minutes
static Sweeper<FloatDP> gsw(Rng& r) { switch (r.below(3)) { case 0: return GradedSweeper<FloatDP>(dp,(DegreeType)r.range(2,4)); case 1: return GradedThresholdSweeper<FloatDP>(dp,4,FloatDP(Dyadic(1,16u),dp)); default: return GradedThresholdSweeper<FloatDP>(dp,3,FloatDP(Dyadic(1,12u),dp)); } }
template<class F> struct TMs { typedef TaylorModel<ValidatedTag,F> TM; typedef decltype(PrOf<F>::pr()) PR; PR pr; Sweeper<F> sw; TM x,y,f,g,pos,small_; Bounds<F> b,c; Vector<Bounds<F>> v; Vector<TM> vt; Vector<Approximation<F>> va; 
    explicit TMs(u64 seed) : TMs(Rng(seed)) { }
    static TM build(TM const& x, TM const& y, Rng& r, PR pr) { TM t=x*Bounds<F>(rs(r),pr)+y*Bounds<F>(rs(r),pr); long n=r.range(0,3); for (long i=0;i<n;++i) t=t*(r.below(2)?x:y)+Bounds<F>(rs(r),pr); if (r.below(2)) t+=Bounds<F>(Dyadic(-1,4u),Dyadic(1,4u),pr); return t; }
    explicit TMs(Rng r) : pr(PrOf<F>::pr()), sw(rsw<F>(r)), x(TM::coordinate(2,0,sw)), y(TM::coordinate(2,1,sw)), f(build(x,y,r,pr)), g(build(x,y,r,pr)), pos(x*Bounds<F>(rs(r),pr)/4+y*y/3+2), small_(x*Bounds<F>(rs(r),pr)/3+y/3), b(rq(r),pr), c(Rational(1,3),pr), v(2u,[&](SizeType){ return Bounds<F>(rs(r),pr); }), vt({x/2+y/3,y*y/4-x/2}), va(2u,[&](SizeType){ return Approximation<F>(rs(r),pr); }) { } };
typedef TMs<FloatDP> TMdp; typedef TMs<FloatMP> TMmp;
#define TMOPS \
    E(add,s.f+s.g) E(sub,s.f-s.g) E(mul,s.f*s.g) E(mulx,s.f*s.x*s.y) E(neg,-s.f) E(addc,s.f+s.b) E(mulc,s.f*s.b) E(divc,s.f/s.c) E(subc,s.b-s.f) E(sqr_,sqr(s.f)) E(pow_,pow(s.g,(Nat)r.range(0,4))) E(div_,s.f/s.pos) E(rec_,rec(s.pos)) E(sqrt_,sqrt(s.pos)) E(exp_,exp(s.small_)) E(log_,log(s.pos)) E(sin_,sin(s.small_)) E(cos_,cos(s.f)) E(tan_,tan(s.small_)) E(atan_,atan(s.small_)) E(abs_,abs(s.f)) E(max_,max(s.f,s.g)) E(min_,min(s.pos,s.x)) E(recbad,rec(s.x)) E(logbad,log(s.x)) E(sqrtbad,sqrt(s.y)) E(divbad,s.f/s.y) \
    E(addn,s.f+ValidatedNumber(Rational(1,7))) E(muln,s.f*ValidatedNumber(Rational(5,7))) \
    E(der,derivative(s.f,r.below(2))) E(anti,antiderivative(s.f,r.below(2))) E(eval,evaluate(s.f,s.v)) E(evala,evaluate(s.f,s.va)) E(grad,gradient(s.f,s.v)) E(peval,partial_evaluate(s.f,r.below(2),s.v[0])) E(comp,compose(s.f,s.vt)) E(split_,split(s.f,r.below(2),SplitPart::LOWER),split(s.f,0u,SplitPart::MIDDLE)) B(split2, auto p=split(s.f,1u); return dg(p.first,p.second);) E(emb,embed(1u,s.f,2u)) E(emberr,embed_error(s.f)) E(disc,discard_variables(s.f,Array<SizeType>({1u}))) E(ref,refinement(s.f,s.f),refines(s.f,s.f),refines(s.f,s.g),consistent(s.f,s.g),inconsistent(s.f,s.g)) \
    E(range_,s.f.range()) E(norm_,norm(s.f),s.f.norm(),s.f.radius()) E(info,s.f.value(),s.f.error(),s.f.degree(),s.f.number_of_nonzeros(),s.f.codomain()) EF(str,F_APPROX,wr(s.f)) E(swp,wr(s.sw)) \
    B(sweep_, auto t=s.f; t.sweep(); t.simplify(); return dg(t);) B(sweepg, auto t=s.f*s.g; t.sweep(GradedSweeper<typename S::TM::RawFloatType>(s.pr,1)); t.cleanup(); return dg(t);) B(inpl, auto t=s.f; t+=s.g; t*=s.b; t-=s.x; t/=s.c; t+=ValidatedNumber(3); return dg(t);) B(clear_, auto t=s.f; t.clear(); t=s.g; t.set_error(s.f.error()); t.clobber(); return dg(t);) B(cp, auto t=s.f; auto q=std::move(t); t=s.g; t.swap(q); return dg(t,q);) \
    E(scal,unscale(s.f,IntervalDomainType(-1,3))) E(mk,S::TM::constant(3,s.b,s.sw),S::TM::ball(2,s.f.error(),s.sw),S::TM::unit_ball(2,s.sw),S::TM::scaling(2,1,IntervalDomainType(-1,2),s.sw),S::TM::zeros(2,2,s.sw),S::TM::coordinates(2,s.sw)) E(vec,s.vt,s.vt+s.vt,s.f*s.vt) E(same_,same(s.f,s.f),same(s.f,s.g)) E(consts,S::TM::scalings(BoxDomainType({{-1,2},{0,1}}),s.sw))
FAMILY(TMdp,"taylor") { TMOPS }
FAMILY(TMmp,"taylor") { TMOPS }

typedef ValidatedScalarMultivariateTaylorFunctionModelDP STF; typedef ValidatedVectorMultivariateTaylorFunctionModelDP VTF;
static EffectiveScalarMultivariateFunction ef(Rng& r, SizeType n) { auto x=EffectiveVectorMultivariateFunction::identity(n); EffectiveScalarMultivariateFunction f=x[0]*Real(rs(r))+x[n-1]; long k=r.range(1,3); bool t=false; for (long i=0;i<k;++i) switch (r.below(6)) { case 0: f=f*x[r.below(n)]+Real(rs(r)); break; case 1: if (!t) f=sin(f/4); t=true; break; case 2: f=f+sqr(x[r.below(n)])/2; break; case 3: if (!t) f=exp(x[0]/4)+f; t=true; break; case 4: if (!t) f=cos(x[n-1]/2)*f; t=true; break; default: f=f-Real(rs(r)); } return f; }
struct TFs { Sweeper<FloatDP> sw; ExactBoxType D,E_; EffectiveScalarMultivariateFunction f1,f2; EffectiveVectorMultivariateFunction vf; STF f,g,pos,h; VTF v,w,id; Vector<FloatDPBounds> p; Vector<FloatDPApproximation> pa; ValidatedScalarMultivariateFunctionPatch fp,gp; ValidatedVectorMultivariateFunctionPatch vp,wp; TaylorFunctionFactory fac; ValidatedScalarMultivariateFunction vsf; ValidatedVectorMultivariateFunction vvf;
    explicit TFs(u64 seed) : TFs(Rng(seed)) { }
    explicit TFs(Rng r) : sw(gsw(r)), D({{-1,1},{Dyadic(-1,1u),Dyadic(3,2u)}}), E_({{-4,4},{-4,4}}), f1(ef(r,2)), f2(ef(r,2)), vf({EffectiveScalarMultivariateFunction::coordinate(2,1)*Real(rs(r))+EffectiveScalarMultivariateFunction::coordinate(2,0)/3,EffectiveScalarMultivariateFunction::coordinate(2,0)-sqr(EffectiveScalarMultivariateFunction::coordinate(2,1))}), f(D,f1,sw), g(D,f2,sw), pos(D,sqr(EffectiveScalarMultivariateFunction::coordinate(2,0))/4+2,sw), h(E_,f2,sw), v(D,vf,sw), w(D,vf+vf,sw), id(VTF::identity(D,sw)), p({FloatDPBounds(rs(r)/2,dp),FloatDPBounds(rs(r)/2,dp)}), pa({FloatDPApproximation(rs(r)/2,dp),FloatDPApproximation(rs(r)/2,dp)}), fp(f), gp(g), vp(v), wp(w), fac(sw), vsf(f), vvf(v) { } };
FAMILY(TFs,"taylor") {
    E(make,STF(s.D,s.f1,s.sw)) E(makev,VTF(s.D,s.vf,s.sw)) E(add,s.f+s.g) E(sub,s.f-s.g) E(mul,s.f*s.g) E(div_,s.f/s.pos) E(neg,-s.f) E(addc,s.f+s.p[0],s.f*s.p[1],2-s.f) E(fns,sqrt(s.pos),log(s.pos),rec(s.pos)) E(fns2,sin(s.f),cos(s.g)) E(fns3,exp(s.f/8)) E(pow_,pow(s.f,3u),sqr(s.g)) E(minmax,max(s.f,s.g),abs(s.f)) E(addf,s.f+ValidatedScalarMultivariateFunction(s.f2)) E(bad,rec(s.id[0]))
    E(eval,s.f(s.p),evaluate(s.g,s.p)) E(evala,s.f(s.pa)) E(evalv,s.v(s.p),evaluate(s.w,s.p)) E(uneval,unchecked_evaluate(s.f,s.p)) E(evalout,s.f(Vector<FloatDPBounds>({FloatDPBounds(9,dp),FloatDPBounds(9,dp)}))) E(jac,s.v.jacobian(s.p)) E(der,derivative(s.f,r.below(2))) E(anti,antiderivative(s.f,r.below(2)),antiderivative(s.f,0u,Dyadic(1,1u))) E(antiv,antiderivative(s.v,1u)) E(peval,partial_evaluate(s.f,r.below(2),FloatDPBounds(Dyadic(1,3u),dp))) E(pevalv,partial_evaluate(s.v,0u,FloatDPBounds(Dyadic(1,3u),dp)))
    E(comp,compose(s.h,s.v)) E(compf,compose(s.f1,s.v),compose(s.vf,s.v)) E(compv,compose(VTF(s.E_,s.vf,s.sw),s.v)) E(join_,join(s.f,s.g),join(s.v,s.f),join(s.v,s.w)) E(comb,combine(s.f,s.g),combine(s.v,s.f)) E(emb,embed(s.D,s.f,s.D),embed(s.v,ExactIntervalType(0,1)),embed(s.v,s.D)) E(prest,partial_restriction(s.f,0u,ExactIntervalType(0,1)),partial_restriction(s.v,1u,ExactIntervalType(0,Dyadic(1,2u)))) E(restr,restriction(s.f,ExactBoxType({{0,1},{0,Dyadic(1,1u)}}))) E(restrv,restriction(s.v,ExactBoxType({{0,1},{0,Dyadic(1,1u)}}))) E(split_,split(s.f,0u).first,split(s.f,1u).second) E(ref,refines(s.f,s.f),inconsistent(s.f,s.g),refinement(s.f,s.f))
    E(range_,s.f.range(),s.v.range()) E(norm_,norm(s.f),norm(s.v)) E(info,s.f.domain(),s.f.codomain(),s.f.error(),s.v.errors(),s.f.argument_size()) EF(str,F_APPROX,wr(s.f)) EF(strv,F_APPROX,wr(s.v)) EF(poly,F_APPROX,wr(s.f.polynomial())) E(diffe,s.f(Vector<Differential<FloatDPBounds>>(Differential<FloatDPBounds>::variables(2,s.p)))[MultiIndex({1,1})]) E(simp,s.v.errors()) B(sweep_, auto t=s.f; t.simplify(); t.clobber(); return dg(t);) B(inpl, auto t=s.f; t+=s.g; t*=FloatDPBounds(3,dp); t-=s.pos; t*=s.g; return dg(t);) B(cp, auto t=s.v; t[0]=s.f; auto q=std::move(t); t=s.w; t.set(1,s.g); return dg(t,q);)
    E(vops,s.v+s.w,s.v-s.w,s.f*s.v,s.v*FloatDPBounds(3,dp)) E(proj,s.v[0],s.v.get(1)) E(isd,VTF::identity(s.D,s.sw),VTF::projection(s.D,Range(1,2),s.sw),STF::coordinate(s.D,1,s.sw),STF::constant(s.D,FloatDPBounds(2,dp),s.sw))
    E(padd,s.fp+s.gp) E(pmul,s.fp*s.gp) E(psub,s.fp-ValidatedNumber(3)) E(pder,derivative(s.fp,0u)) E(panti,antiderivative(s.gp,1u)) E(peval_,s.fp(s.p),s.vp(s.p)) E(pcomp,compose(ValidatedScalarMultivariateFunction(s.f2),s.vp)) E(pcompv,compose(ValidatedVectorMultivariateFunction(s.vf),s.wp)) E(pjoin,join(s.fp,s.gp),join(s.vp,s.fp)) E(pembed,embed(s.fp,s.D)) E(prestr,restriction(s.fp,ExactBoxType({{0,1},{0,Dyadic(1,1u)}}))) E(prange,s.fp.range(),s.vp.range()) EF(pstr,F_APPROX,wr(s.fp),wr(s.vp)) E(ppart,partial_evaluate(s.fp,0u,ValidatedNumber(Dyadic(1,2u)))) B(pcp, auto t=s.fp; t=t+s.gp; t*=ValidatedNumber(2); auto q=s.vp; q.set(0,t); q=q+s.wp; return dg(t,q);) B(pset, auto t=s.vp; t=join(t,s.fp); return dg(t,t[0]);)
    E(fac_,s.fac.create(s.D,ValidatedScalarMultivariateFunction(s.f1)),s.fac.create_identity(s.D),s.fac.create_zero(s.D),s.fac.create_constant(s.D,ValidatedNumber(Rational(1,3)))) E(facf,factory(s.fp).create(ValidatedScalarMultivariateFunction(s.f2)),factory(s.vp).create_zero()) E(cast_,ValidatedScalarMultivariateFunction(s.fp)(s.p)) E(vsf,s.vsf(s.p),s.vvf(s.p),(s.vsf*s.vsf)(s.p)) E(vdiff,ValidatedScalarMultivariateFunction(s.f1).gradient(s.p))
}
}
