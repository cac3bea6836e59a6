// Procedures.
#include "digest.hpp"
#include "digest_num.hpp"
#include "algebra/algebra.hpp"
#include "function/function.hpp"
#include "function/formula.hpp"
#include "function/procedure.hpp"
#include "geometry/box.hpp"
#include "catalogue.hpp"
using namespace Ariadne; using namespace sim;
namespace {
static Rational rs(Rng& r) { return Rational(Integer(r.range(-80,80)),Integer(100)); }
template<class X> static std::string dcv(Covector<X> const& v) { NoFail nf; std::string s="C("; for (SizeType i=0;i!=v.size();++i) s+=Dig::dig(v[i]); return s+")"; }
// ---------------------------------------------------------------- procedures
struct Proc { typedef Formula<ValidatedNumber> VF; Vector<VF> f; Procedure<ValidatedNumber> p; Vector<Procedure<ValidatedNumber>> vp; ApproximateFormula af; ApproximateProcedure ap; Vector<FloatDPBounds> v; Vector<FloatDPApproximation> va;
    static Vector<VF> fs(Rng& r) { auto x=VF::coordinate(0), y=VF::coordinate(1); ValidatedNumber c(rs(r)); return Vector<VF>({sqrt(1+x*x+c*c*y*y),atan(y)*x+c,pow(x,2)*c-y,exp(x/4)+sin(y)}); }
    explicit Proc(u64 s) : Proc(Rng(s)) { }
    explicit Proc(Rng r) : f(fs(r)), p(argument_size=2u,f[r.below(4)]), vp(argument_size=2u,f), af(pow(ApproximateFormula::coordinate(0),2)*ApproximateFormula::coordinate(1)+ApproximateFormula::constant(ApproximateNumber(rs(r)))), ap(argument_size=2u,af), v(2u,[&](SizeType){ return FloatDPBounds(rs(r),dp); }), va(2u,[&](SizeType){ return FloatDPApproximation(rs(r),dp); }) { }
};
FAMILY(Proc,"function") {
    E(ev,evaluate(s.p,s.v)) EF(eva,F_APPROX,evaluate(s.ap,s.va)) EF(str,F_APPROX,wr(s.p),wr(s.vp),wr(s.ap)) E(grad,dcv(gradient(s.p,s.v))) EF(grada,F_APPROX,dcv(gradient(s.ap,s.va))) E(hess,hessian(s.p,s.v,s.v)) E(mk,evaluate(Procedure<ValidatedNumber>(argument_size=2u,s.f[r.below(4)]),s.v)) E(fev,evaluate(s.f[r.below(4)],s.v)) EF(fstr,F_APPROX,wr(s.f))
    B(prop,UpperBoxType bx({{-1,1},{-1,1}}); simple_hull_reduce(bx,s.p,IntervalDomainType(0,1)); return dg(bx);) B(propv,UpperBoxType bx({{-1,1},{-1,1}}); simple_hull_reduce(bx,s.vp,BoxDomainType(4u,IntervalDomainType(0,1))); return dg(bx);)
    B(mkf,auto x=EffectiveVectorMultivariateFunction::identity(2); auto q=make_procedure(ValidatedScalarMultivariateFunction(x[0]*x[1]+sin(x[0]))); return dg(evaluate(q,s.v));)
    B(asg,Procedure<ValidatedNumber> q(s.p); q=Procedure<ValidatedNumber>(argument_size=2u,s.f[0]); return dg(evaluate(q,s.v));)
}
}
