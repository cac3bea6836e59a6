// Exact (bit-level) textual digests of Ariadne values, for comparing results of two executions.
#ifndef SIM_DIGEST_HPP
#define SIM_DIGEST_HPP
#include <cstdio>
#include <cstring>
#include <string>
#include <algorithm>
#include <vector>
#include "simrt.h"
#include "numeric/numeric.hpp"
#include "algebra/vector.hpp"
#include "algebra/matrix.hpp"
#include "function/taylor_model.hpp"
#include "function/taylor_function.hpp"
#include "geometry/box.hpp"
namespace sim {
using namespace Ariadne;
inline std::string hex(double d) { u64 b; std::memcpy(&b,&d,8); char s[24]; std::snprintf(s,sizeof s,"%016llx ",(unsigned long long)b); return s; }
struct Dig {
static std::string dig(FloatDP const& x) { return hex(x.get_d()); }
static std::string dig(FloatMP const& x) { char buf[256]; char* p=nullptr; mpfr_exp_t e=0; p=mpfr_get_str(nullptr,&e,16,0,x.get_mpfr(),MPFR_RNDN); std::snprintf(buf,sizeof buf,"%.200s@%ld/%ld ",p,mpfr_regular_p(x.get_mpfr())?(long)e:0L,(long)mpfr_get_prec(x.get_mpfr())); std::string r=buf; mpfr_free_str(p); return r; }
template<class PR> static std::string dig(Bounds<PR> const& x) { return "["+dig(x.lower_raw())+dig(x.upper_raw())+"]"; }
template<class F, class FE> static std::string dig(Ball<F,FE> const& x) { return "<"+dig(x.value_raw())+dig(x.error_raw())+">"; }
template<class F> static std::string dig(Error<F> const& x) { return "e"+dig(x.raw()); }
template<class F> static std::string dig(UpperBound<F> const& x) { return "u"+dig(x.raw()); }
template<class F> static std::string dig(LowerBound<F> const& x) { return "l"+dig(x.raw()); }
template<class F> static std::string dig(Approximation<F> const& x) { return "~"+dig(x.raw()); }
static std::string dig(Rational const& q) { std::ostringstream o; o<<q.numerator()<<"/"<<q.denominator(); return o.str()+" "; }
template<class U> static std::string dig(Interval<U> const& i) { return "{"+dig(i.lower_bound())+dig(i.upper_bound())+"}"; }
template<class I> static std::string dig(Box<I> const& b) { std::string r="B("; for (SizeType i=0;i!=b.dimension();++i) r+=dig(b[i]); return r+")"; }
template<class X> static std::string dig(Vector<X> const& v) { std::string r="V("; for (SizeType i=0;i!=v.size();++i) r+=dig(v[i]); return r+")"; }
template<class X> static std::string dig(Point<X> const& v) { std::string r="P("; for (SizeType i=0;i!=v.size();++i) r+=dig(v[i]); return r+")"; }
template<class X> static std::string dig(Matrix<X> const& m) { std::string r="M("; for (SizeType i=0;i!=m.row_size();++i) for (SizeType j=0;j!=m.column_size();++j) r+=dig(m[i][j]); return r+")"; }
template<class I> static std::string dig_index(I const& a) { std::ostringstream o; o<<a; return o.str(); }
template<class F> static std::string dig(TaylorModel<ValidatedTag,F> const& t) { std::string r="T("; for (auto const& x : t.expansion()) r+=dig_index(x.index())+":"+dig(x.coefficient()); return r+"|"+dig(t.error())+")"; }
template<class F> static std::string dig(TaylorModel<ApproximateTag,F> const& t) { std::string r="A("; for (auto const& x : t.expansion()) r+=dig_index(x.index())+":"+dig(x.coefficient()); return r+")"; }
template<class M> static std::string dig(ScalarScaledFunctionPatch<M> const& f) { return dig(f.domain())+dig(f.model()); }
template<class M> static std::string dig(VectorScaledFunctionPatch<M> const& f) { return dig(f.domain())+dig(f.models()); }
static std::string dig(ValidatedScalarMultivariateFunctionPatch const& f) { auto* p=dynamic_cast<ValidatedScalarMultivariateTaylorFunctionModelDP const*>(f.raw_pointer()); if (p) return dig(*p); std::ostringstream o; o<<f; return o.str(); }
static std::string dig(ValidatedVectorMultivariateFunctionPatch const& f) { auto* p=dynamic_cast<ValidatedVectorMultivariateTaylorFunctionModelDP const*>(f.raw_pointer()); if (p) return dig(*p); std::ostringstream o; o<<f; return o.str(); }
};
template<class T> requires requires(T const& t) { Dig::dig(t); } std::string dig(T const& t) { return Dig::dig(t); }
template<class T> std::string sdig(T const& t) { std::ostringstream o; o.precision(17); o<<t; return o.str(); }
inline std::string sorted(std::vector<std::string> v) { std::sort(v.begin(),v.end()); std::string r; for (auto& s : v) { r+=s; r+="\n"; } return r; }
}
#endif
