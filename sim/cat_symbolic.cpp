// Symbolic expressions, spaces, valuations, expression sets, formulae.
#include "digest.hpp"
#include "symbolic/expression.hpp"
#include "symbolic/expression_set.hpp"
#include "symbolic/space.hpp"
#include "symbolic/valuation.hpp"
#include "symbolic/assignment.hpp"
#include "symbolic/templates.hpp"
#include "algebra/algebra.hpp"
#include "function/formula.hpp"
#include "function/function.hpp"
#include "geometry/function_set.hpp"
#include "catalogue.hpp"
using namespace Ariadne; using namespace sim;
namespace {
static Rational rq(Rng& r) { return Rational(Integer(r.range(-90,90)),Integer(r.range(1,16))); }
struct Vars { RealVariable x,y,z,u; Vars() : x("x"),y("y"),z("z"),u("u") { } };
static RealExpression leaf(Vars const& v, Rng& r) { switch (r.below(6)) { case 0: return RealExpression(v.x); case 1: return RealExpression(v.y); case 2: return RealExpression(v.z); case 3: return RealExpression::constant(Real(Rational(rq(r)))); case 4: return RealExpression(v.u); default: return RealExpression::constant(Real((Int)r.range(-3,3))); } }
static RealExpression rexp(Vars const& v, Rng& r, int d) {
    if (d==0) return leaf(v,r);
    switch (r.below(14)) { case 0: case 1: return rexp(v,r,d-1)+rexp(v,r,d-1); case 2: return rexp(v,r,d-1)-rexp(v,r,d-1); case 3: case 4: return rexp(v,r,d-1)*rexp(v,r,d-1); case 5: return -rexp(v,r,d-1); case 6: return sqr(rexp(v,r,d-1)); case 7: return pow(rexp(v,r,d-1),(Int)r.range(0,4)); case 8: return sin(rexp(v,r,d-1)); case 9: return cos(rexp(v,r,d-1)); case 10: return exp(rexp(v,r,d-1)/8); case 11: return max(rexp(v,r,d-1),rexp(v,r,d-1)); case 12: return rexp(v,r,d-1)/RealExpression::constant(Real((Int)r.range(1,9))); default: return atan(rexp(v,r,d-1)); } }
struct Symb { Vars v; RealExpression e,f,pol; ContinuousPredicate p,q; RealSpace spc; List<RealAssignment> as; Map<Identifier,Real> val; ContinuousValuation<Real> cval; Vector<RealExpression> ve; RealExpressionBoundedConstraintSet bset; RealExpressionConstraintSet cset; RealVariablesBox vbx; StringVariable sv; DiscretePredicate dp_; DiscreteValuation dval; EffectiveFormula fo,fg;
    explicit Symb(u64 seed) : Symb(Rng(seed)) { }
    explicit Symb(Rng r) : e(rexp(v,r,(int)r.range(1,4))), f(rexp(v,r,3)), pol(sqr(v.x)*v.y-3*v.y*v.z+Real(rq(r))*v.x+v.u), p((v.x+v.y<=Real(2)) && (v.x*v.x>=Real(rq(r))) && !(v.z<=v.y)), q(v.x-v.y>=0), spc({v.x,v.y,v.z,v.u}),
        as({let(v.z)=v.x+sin(v.y),let(v.u)=v.z*v.x}), ve({rexp(v,r,2),rexp(v,r,2),v.x+v.u}), bset({0<=v.x<=2,-1<=v.y<=Real(Decimal(1.5_dec)),0<=v.z<=1,-2<=v.u<=3},{sqr(v.x)+sqr(v.y)<=4,v.x+v.z>=Real(rq(r))}), cset({sqr(v.x)+sqr(v.y)<=4,v.x-v.y*v.z>=-2}), vbx({0<=v.x<=2,-1<=v.y<=1,Dyadic(0)<=v.z<=Real(3),1<=v.u<=2}), sv("s"), dp_((sv=="on")||!(sv=="off")), fo(EffectiveFormula::coordinate(0)), fg(EffectiveFormula::coordinate(1)) {
        int i=0; for (auto* w : {&v.x,&v.y,&v.z,&v.u}) { Real c(rq(r)); val.insert(w->name(),c); cval.insert(*w,c); ++i; }
        dval.insert(sv,String(r.below(2)?"on":"off"));
        fo=sqr(fo)*cos(fg)+EffectiveFormula::constant(EffectiveNumber(Real(rq(r))))*exp(fo/8)+atan(fg); fg=fg*EffectiveFormula::coordinate(2)-fo+pow(fg,3); } };
static std::string rv(Real const& x) { FloatDPBounds b=x.get(dp); return sim::dig(b); }
static std::string kv(Kleenean k) { auto c=k.check(Effort(2)); std::ostringstream o; o<<c; return o.str(); }
FAMILY(Symb,"symbolic") {
    E(str,wr(s.e),wr(s.f)) E(strp,wr(s.p),wr(s.q)) E(strs,wr(s.spc),wr(s.as)) E(add,wr(s.e+s.f)) E(sub,wr(s.e-s.f)) E(mul,wr(s.e*s.f),wr(s.e*Real(3))) E(divc,wr(s.e/Real(7))) E(neg,wr(-s.e)) E(fns,wr(sqrt(abs(s.e))),wr(log(1+sqr(s.f))),wr(tan(s.e)),wr(min(s.e,s.f))) E(powr,wr(pow(s.e,(Int)r.range(-2,5))))
    E(eval,rv(evaluate(s.e,s.val))) E(evalf,rv(evaluate(s.f,s.val))) E(evalpol,rv(evaluate(s.pol,s.val))) E(evalv,rv(evaluate(s.e,Valuation<Real>(s.val)))) E(evalp,kv(evaluate(s.p,s.val)),kv(evaluate(s.q,s.val))) E(evald,wr(s.dp_),evaluate(s.dp_,static_cast<StringValuation const&>(s.dval)))
    E(argse,wr(s.e.arguments()),wr(s.p.arguments()),wr(arguments(s.f)))
    E(subst,wr(substitute(s.e,s.v.x,Real((Int)r.range(-4,4))))) E(subst2,wr(substitute(s.e,s.as))) E(substv,wr(substitute(s.ve,s.as)))
    E(simp,wr(simplify(s.e))) E(simpf,wr(simplify(s.f))) E(simpp,wr(simplify(s.p))) E(deriv,wr(derivative(s.e,s.v.x))) E(deriv2,wr(simplify(derivative(s.f,s.v.y)))) E(derivp,wr(simplify(derivative(s.pol,s.v.x))))
    B(cse, RealExpression t(s.e); eliminate_common_subexpressions(t); return dg(wr(t),count_distinct_nodes(t));) B(csev, Vector<RealExpression> t(s.ve); eliminate_common_subexpressions(t); return wr(t);)
    E(nodes,count_nodes(s.e),count_distinct_nodes(s.e),count_distinct_node_pointers(s.e)) E(ident,identical(s.e,s.e),identical(s.e,s.f),before(s.e,s.f),before(s.f,s.e)) E(isx,is_constant_in(s.e,Set<RealVariable>({s.v.x})),is_affine_in(s.e,Set<RealVariable>({s.v.y,s.v.z})),is_affine_in(s.pol,Set<RealVariable>({s.v.u})),is_polynomial_in(s.pol,Set<RealVariable>({s.v.x,s.v.y})),is_additive_in(s.e,s.v.u)) E(isv,is_affine_in(s.ve,Set<RealVariable>({s.v.x})),is_additive_in(s.ve,Set<RealVariable>({s.v.u})))
    E(indic,wr(indicator(s.q)),wr(indicator(s.v.x>=s.v.y,Sign::NEGATIVE)),opposite(s.q,s.v.x-s.v.y<=0))
    E(formula,wr(make_formula(s.e,s.spc))) E(formulav,wr(make_formula(s.ve,s.spc))) E(fun,wr(make_function(s.spc,s.e))) E(funv,wr(make_function(s.spc,s.ve))) E(fune, make_function(s.spc,s.e)(Vector<FloatDPBounds>({FloatDPBounds(rq(r),dp),FloatDPBounds(rq(r),dp),FloatDPBounds(1,dp),FloatDPBounds(rq(r),dp)}))) E(funaux,wr(make_formula(s.ve,s.as,RealSpace({s.v.x,s.v.y})))) E(expr,wr(make_expression(make_function(s.spc,s.pol),s.spc)))
    E(spcops,wr(s.spc.variables()),wr(s.spc.variable_names()),wr(s.spc.indices()),s.spc.index(s.v.y),s.spc.contains(s.v.z),s.spc==s.spc) B(spcjoin, RealSpace t(List<RealVariable>({RealVariable("a"),RealVariable("b")})); return wr(join(t,s.spc))+wr(join(t,RealVariable("c")));)
    B(valops, ContinuousValuation<Real> t(s.cval); t.set(s.v.x,Real(9)); t.insert(RealVariable("w"),Real(2)); return dg(wr(t.defined()),rv(t[s.v.x]),rv(t[s.v.y]));) B(dvalops, DiscreteValuation t(s.dval); t.insert(StringVariable("t"),String("a longer value than fits inline")); return wr(t);)
    E(bset,wr(s.bset),wr(s.bset.variables())) E(bsete,wr(s.bset.euclidean_set(s.spc))) E(csete,wr(s.cset.euclidean_set(s.spc)),wr(s.cset)) E(vbx,wr(s.vbx),wr(s.vbx.variables()),wr(s.vbx.euclidean_set(s.spc))) E(vbxap,wr(over_approximation(s.vbx)),wr(under_approximation(s.vbx)),wr(approximation(s.vbx))) E(aset,wr(approximate_euclidean_set(s.bset,s.spc))) E(inter,wr(intersection(s.vbx,s.cset)))
    E(asn,wr(let(s.v.x)=s.e),wr(prime(s.v.y)=s.f),wr(dot(s.v.z)=s.e)) B(vars, RealVariable t(String("a variable with a rather long name")); RealVariable q(t); RealVariables rvs("c",3); return dg(wr(t),t==q,t<s.v.x,wr(dot(t)),wr(prime(q)),wr(RealExpression(rvs[1])+rvs[2]));) B(dpr, DiscretePredicate t=(s.dp_ && (StringVariable("mode")!="off")); return dg(wr(t),wr(t.arguments()));)
    B(cst, RealConstant k("k_a_constant_with_a_name",Real(2)); return dg(wr(k*s.e+k),rv(evaluate(k*s.pol,s.val)));)
    E(fostr,wr(s.fo),wr(s.fg)) E(foder,wr(simplify(derivative(s.fo,0u))),wr(derivative(s.fg,1u))) E(fosub,wr(substitute(s.fo,1u,s.fg))) E(fosimp,wr(simplify(s.fg))) E(foid,identical(s.fo,s.fo),identical(s.fo,s.fg),is_constant_in(s.fo,Set<Nat>({2u})),is_affine_in(s.fg,Set<Nat>({2u}))) E(foev,evaluate(s.fo,Vector<FloatDPBounds>({FloatDPBounds(rq(r),dp),FloatDPBounds(rq(r),dp),FloatDPBounds(1,dp)}))) E(foevmp,evaluate(s.fg,Vector<FloatMPBounds>({FloatMPBounds(rq(r),MultiplePrecision(90)),FloatMPBounds(rq(r),MultiplePrecision(90)),FloatMPBounds(1,MultiplePrecision(90))})))
    B(cp, RealExpression t(s.e); RealExpression w(std::move(t)); t=s.f; w=w+t; Symb* dummy=nullptr; (void)dummy; return wr(w)+wr(t);) B(cpset, RealExpressionBoundedConstraintSet t(s.bset); RealSpace sp(s.spc); ContinuousPredicate p(s.p); p=p&&s.q; return wr(t)+wr(sp)+wr(p);)
}
}
