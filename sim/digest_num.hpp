// Exact digests of numbers, vectors and matrices.
#ifndef SIM_DIGEST_NUM_HPP
#define SIM_DIGEST_NUM_HPP
#include <cstdio>
#include <cstring>
#include <string>
#include <algorithm>
#include <vector>
#include "simrt.h"
#include "numeric/numeric.hpp"
#include "numeric/floats.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/matrix.hpp"
namespace sim {
using namespace Ariadne;
inline std::string hexd(double d) { u64 b; std::memcpy(&b,&d,8); char s[24]; std::snprintf(s,sizeof s,"%016llx ",(unsigned long long)b); return s; }
struct DigN {
static std::string dig(FloatDP const& x) { return hexd(x.get_d()); }
static std::string dig(FloatMP const& x) { char buf[300]; char* p=nullptr; mpfr_exp_t e=0; p=mpfr_get_str(nullptr,&e,16,0,x.get_mpfr(),MPFR_RNDN); std::snprintf(buf,sizeof buf,"%.200s@%ld/%ld ",p,mpfr_regular_p(x.get_mpfr())?(long)e:0L,(long)mpfr_get_prec(x.get_mpfr())); mpfr_free_str(p); return buf; }
template<class PR> static std::string dig(Bounds<PR> const& x) { if constexpr (requires { x.lower_raw(); }) return "["+dig(x.lower_raw())+dig(x.upper_raw())+"]"; else { std::ostringstream o; o<<x; return o.str(); } }
template<class F, class FE> static std::string dig(Ball<F,FE> const& x) { if constexpr (requires { x.value_raw(); }) return "<"+dig(x.value_raw())+dig(x.error_raw())+">"; else { std::ostringstream o; o<<x; return o.str(); } }
template<class F> static std::string dig(Error<F> const& x) { return "e"+dig(x.raw()); }
template<class F> static std::string dig(UpperBound<F> const& x) { if constexpr (requires { dig(x.raw()); }) return "u"+dig(x.raw()); else { std::ostringstream o; o<<x; return o.str(); } }
template<class F> static std::string dig(LowerBound<F> const& x) { if constexpr (requires { dig(x.raw()); }) return "l"+dig(x.raw()); else { std::ostringstream o; o<<x; return o.str(); } }
template<class F> static std::string dig(Approximation<F> const& x) { if constexpr (requires { dig(x.raw()); }) return "~"+dig(x.raw()); else { std::ostringstream o; o<<x; return o.str(); } }
static std::string dig(Rational const& q) { std::ostringstream o; o<<q.numerator()<<"/"<<q.denominator(); return o.str()+" "; }
template<class X> static std::string dig(Vector<X> const& v) { std::string r="V("; for (SizeType i=0;i!=v.size();++i) r+=dig(v[i]); return r+")"; }
template<class X> static std::string dig(Covector<X> const& v) { std::string r="V'("; for (SizeType i=0;i!=v.size();++i) r+=dig(v[i]); return r+")"; }
template<class X> static std::string dig(Matrix<X> const& m) { std::string r="M("; for (SizeType i=0;i!=m.row_size();++i) for (SizeType j=0;j!=m.column_size();++j) r+=dig(m[i][j]); return r+")"; }
static std::string dig(double d) { return hexd(d); }
template<class X> requires requires(std::ostream& o, X const& x) { o<<x; } static std::string dig_any(X const& x) { std::ostringstream o; o<<x; return o.str()+" "; }
};
}
#endif
