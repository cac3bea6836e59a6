// Chebyshev polynomials (in a file of their own: the template headers cannot be included together).
#include "digest.hpp"
#include "algebra/algebra.hpp"
#include "function/chebyshev_polynomial.hpp"
#include "function/chebyshev_polynomial.tpl.hpp"
#include "catalogue.hpp"
using namespace Ariadne; using namespace sim;
namespace {
static Rational rs(Rng& r) { return Rational(Integer(r.range(-80,80)),Integer(100)); }
// ---------------------------------------------------------------- Chebyshev polynomials
struct Cheb { typedef UnivariateChebyshevPolynomial<FloatDPBounds> U; typedef MultivariateChebyshevPolynomial<FloatDPBounds> M; U x,p,q; M m,k; FloatDPBounds t; Vector<FloatDPBounds> v;
    explicit Cheb(u64 s) : Cheb(Rng(s)) { }
    explicit Cheb(Rng r) : x(U::coordinate(dp)), p(x*x*FloatDPBounds(rs(r),dp)+x), q(x*x*FloatDPBounds(rs(r),dp)+x*FloatDPBounds(rs(r),dp)), m(M::coordinate(2,0,dp)*M::coordinate(2,1,dp)*FloatDPBounds(rs(r),dp)+M::coordinate(2,0,dp)), k(M::coordinate(2,1,dp)+M::coordinate(2,0,dp)*FloatDPBounds(rs(r),dp)), t(rs(r),dp), v(2u,[&](SizeType){ return FloatDPBounds(rs(r),dp); }) { }
};
FAMILY(Cheb,"function") {
    E(ev,s.p(s.t),s.q(s.t)) E(add,(s.p+s.q)(s.t)) E(sub,(s.p-s.q)(s.t)) E(mul,(s.p*s.q)(s.t)) E(mulc,(s.p*s.t)(s.t)) E(powp,pow(s.p,(Nat)r.range(0,3))(s.t)) EF(str,F_APPROX,wr(s.p),wr(s.q)) E(basis,Cheb::U::basis((SizeType)r.range(0,5),dp)(s.t))
    E(mev,s.m(s.v),s.k(s.v)) E(madd,(s.m+s.k)(s.v)) EF(mstr,F_APPROX,wr(s.m)) B(asg,Cheb::U a(s.p); a=s.q; Cheb::M b(s.m); b=s.k; return dg(a(s.t),b(s.v));)
}
}
