From e17dc3f984785943a5eb9fb0d64eb832665f87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:13 +0000
Subject: [PATCH 01/26] fix: writing an interval no longer changes the
 process-wide output precision

The value is not used when writing a FloatDP, and evolutions running
concurrently raced on it, possibly leaving it modified for good.
---
 source/geometry/interval.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/source/geometry/interval.cpp b/source/geometry/interval.cpp
index 0a17da9..8570716 100644
--- a/source/geometry/interval.cpp
+++ b/source/geometry/interval.cpp
@@ -27,14 +27,8 @@
 
 namespace Ariadne {
 
-static const uint GEOMETRY_OUTPUT_PLACES = 4;
-
 template<> OutputStream& operator<<(OutputStream& os, Interval<FloatDP> const& ivl) {
-    auto places = FloatDP::output_places;
-    FloatDP::output_places=GEOMETRY_OUTPUT_PLACES;
-    os << "{" << ivl.lower_bound() << ":" << ivl.upper_bound() << "}";
-    FloatDP::output_places=places;
-    return os;
+    return os << "{" << ivl.lower_bound() << ":" << ivl.upper_bound() << "}";
 }
 
 Interval<FloatDP> widen_domain(Interval<FloatDPUpperBound> const& ivl) {
-- 
2.43.0


From 2a45ad2a81b9e570108dbb678a1bede32b823048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:00 +0000
Subject: [PATCH 02/26] fix: writing a ball no longer reads past the end of the
 printed error

---
 source/numeric/float_ball.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/source/numeric/float_ball.cpp b/source/numeric/float_ball.cpp
index fb18cfa..3eeb9e7 100644
--- a/source/numeric/float_ball.cpp
+++ b/source/numeric/float_ball.cpp
@@ -75,8 +75,10 @@ template<> OutputStream& Operations<FloatBall<MultiplePrecision>>::_write(Output
     // Find position of first significan digit of error
     auto vcstr=vstr.c_str(); auto ecstr=estr.c_str();
     size_t cpl=0;
+    size_t ecpl=0;
     if(edbl==0.0) {
-        cpl=std::strlen(vcstr);
+        cpl=vstr.size();
+        ecpl=estr.size();
     } else if(edbl<1.0) {
         const char* vptr = std::strchr(vcstr,'.');
         const char* eptr = std::strchr(ecstr,'.');
@@ -84,21 +86,13 @@ template<> OutputStream& Operations<FloatBall<MultiplePrecision>>::_write(Output
         while((*eptr)=='0') { ++eptr; ++vptr; }
 
         cpl = static_cast<size_t>(vptr-vcstr);
+        ecpl = static_cast<size_t>(eptr-ecstr);
     }
 
 
     // Chop and catenate strings
-    static const size_t buf_sz = 1024;
-    char ocstr[buf_sz];
-    ocstr[0]='\0';
-    std::strncat(ocstr,vcstr,cpl);
-    std::strcat(ocstr,"[");
-    std::strcat(ocstr,vcstr+cpl);
-    std::strcat(ocstr,pmstr);
-    std::strcat(ocstr,ecstr+cpl);
-    std::strcat(ocstr,hlfstr);
-    std::strcat(ocstr,"]");
-    return os << ocstr;
+    String ostr=vstr.substr(0,cpl)+"["+vstr.substr(cpl)+pmstr+estr.substr(ecpl)+hlfstr+"]";
+    return os << ostr;
 
     return os << x.value() << "\u00b1" << x.error();
 }
-- 
2.43.0


From 0fd87c3c7df27ad93cf9f89fc961eec197fe66b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:00 +0000
Subject: [PATCH 03/26] fix: writing an integer no longer leaks its buffer when
 an allocation fails

---
 source/numeric/integer.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/source/numeric/integer.cpp b/source/numeric/integer.cpp
index 374ee33..9080eaf 100644
--- a/source/numeric/integer.cpp
+++ b/source/numeric/integer.cpp
@@ -32,6 +32,7 @@
 
 #include "numeric/concepts.hpp"
 
+#include <cstring>
 #include <limits>
 
 namespace Ariadne {
@@ -278,12 +279,10 @@ Boolean lt(Integer const& z1, Integer const& z2) {
 // and for the terminating null character, and the value 7 accounts for -@Inf@ plus the terminating null character.
 String Integer::literal() const {
     SizeType output_buffer_size=mpz_sizeinbase(this->_mpz,10)+2;
-    char* cstr=new char[output_buffer_size];
-    cstr[output_buffer_size-1]='\0';
-    mpz_get_str (cstr, 10, this->_mpz);
-    ARIADNE_ASSERT(cstr[output_buffer_size-1]=='\0');
-    String str(cstr);
-    delete[] cstr;
+    String str(output_buffer_size,'\0');
+    mpz_get_str (&str[0], 10, this->_mpz);
+    ARIADNE_ASSERT(str[output_buffer_size-1]=='\0');
+    str.resize(std::strlen(str.c_str()));
     return str;
 }
 
-- 
2.43.0


From ed4704f5238e986ecd3f17f825ff43e491cc9f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:00 +0000
Subject: [PATCH 04/26] fix: truncating bounds no longer depends on the ambient
 rounding mode

---
 source/numeric/float_bounds.tpl.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/numeric/float_bounds.tpl.hpp b/source/numeric/float_bounds.tpl.hpp
index 4cfdb97..d04a215 100644
--- a/source/numeric/float_bounds.tpl.hpp
+++ b/source/numeric/float_bounds.tpl.hpp
@@ -126,16 +126,14 @@ template<class F> auto Operations<Bounds<F>>::_tan(Bounds<F> const& x) -> Bounds
 }
 
 template<class F> auto Operations<Bounds<F>>::_trunc(Bounds<F> const& x) -> Bounds<F> {
-    typename F::RoundingModeType rm=F::get_rounding_mode();
-    const double& xl=x.lower_raw().get_d();
-    const double& xu=x.upper_raw().get_d();
-    // Use machine epsilon instead of minimum to move away from zero
-    const float fm=std::numeric_limits<float>::epsilon();
+    auto rm=FloatDP::get_rounding_mode();
+    volatile double xl=x.lower_raw().get_d();
+    volatile double xu=x.upper_raw().get_d();
+    FloatDP::set_rounding_upward();
     volatile float tu=xu;
-    if(tu<xu) { F::set_rounding_upward(); tu=tu+fm; }
+    FloatDP::set_rounding_downward();
     volatile float tl=xl;
-    if(tl>xl) { F::set_rounding_downward(); tl=tl-fm; }
-    F::set_rounding_mode(rm);
+    FloatDP::set_rounding_mode(rm);
     assert(tl<=xl); assert(tu>=xu);
     return Bounds<F>(ExactDouble(tl),ExactDouble(tu),x.precision());
 }
-- 
2.43.0


From 4c33d15d423b69721dca75d812d8ceeeb4dcf3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:39 +0000
Subject: [PATCH 05/26] fix: the literal of a number is no longer silently cut
 short when an allocation fails

---
 source/numeric/decimal.cpp | 2 +-
 source/numeric/dyadic.cpp  | 2 +-
 source/numeric/floatdp.cpp | 4 ++--
 source/numeric/floatmp.cpp | 4 ++--
 source/utility/string.hpp  | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/numeric/decimal.cpp b/source/numeric/decimal.cpp
index ac77c4c..c7a6f52 100644
--- a/source/numeric/decimal.cpp
+++ b/source/numeric/decimal.cpp
@@ -286,7 +286,7 @@ Decimal::Decimal(String const& str)
 }
 
 String Decimal::literal() const {
-    StringStream ss;
+    StringStream ss; ss.exceptions(std::ios_base::badbit);
     ss << *this;
     return ss.str();
 }
diff --git a/source/numeric/dyadic.cpp b/source/numeric/dyadic.cpp
index 03bac1d..b972cf5 100644
--- a/source/numeric/dyadic.cpp
+++ b/source/numeric/dyadic.cpp
@@ -417,7 +417,7 @@ OutputStream& operator<<(OutputStream& os, Dyadic const& x) {
 
 String Dyadic::literal() const {
     DecimalWriter writer;
-    StringStream ss;
+    StringStream ss; ss.exceptions(std::ios_base::badbit);
     ss << writer(*this);
     return ss.str();
 }
diff --git a/source/numeric/floatdp.cpp b/source/numeric/floatdp.cpp
index b3062db..9ef636c 100644
--- a/source/numeric/floatdp.cpp
+++ b/source/numeric/floatdp.cpp
@@ -283,13 +283,13 @@ MPFRRoundingModeType to_mpfr_rounding_mode(BuiltinRoundingModeType rnd) {
 }
 
 String FloatDP::literal() const {
-    StringStream ss;
+    StringStream ss; ss.exceptions(std::ios_base::badbit);
     write(ss,*this,DecimalPrecision(53),near);
     return ss.str();
 }
 
 String FloatDP::literal(RoundingModeType rnd) const {
-    StringStream ss;
+    StringStream ss; ss.exceptions(std::ios_base::badbit);
     write(ss,*this,DecimalPrecision(18),rnd);
     return ss.str();
 }
diff --git a/source/numeric/floatmp.cpp b/source/numeric/floatmp.cpp
index bae4abc..f2d2091 100644
--- a/source/numeric/floatmp.cpp
+++ b/source/numeric/floatmp.cpp
@@ -527,14 +527,14 @@ String print(FloatMP const& x, DecimalPlaces plcs, RoundingModeMP rnd) {
 
 String FloatMP::literal() const {
     static const double log2ten = 3.3219280948873621816;
-    StringStream ss;
+    StringStream ss; ss.exceptions(std::ios_base::badbit);
     DecimalPlaces plcs(std::max((int)this->precision()-(int)this->exponent(),0)/log2ten+1);
     ss << print(*this,plcs,FloatMP::get_rounding_mode());
     return ss.str();
 }
 
 String FloatMP::literal(RoundingModeMP rnd) const {
-    StringStream ss;
+    StringStream ss; ss.exceptions(std::ios_base::badbit);
     static const double log2ten = 3.3219280948873621816;
     DecimalPrecision dgts(this->precision()/log2ten+3);
     write(ss, *this, dgts, rnd);
diff --git a/source/utility/string.hpp b/source/utility/string.hpp
index 676eb94..c1cc3b9 100644
--- a/source/utility/string.hpp
+++ b/source/utility/string.hpp
@@ -45,7 +45,7 @@ class String : public std::string {
 inline const char* c_str(const String& str) {
     return str.c_str(); }
 template<class T> inline String to_string(const T& t) {
-    std::stringstream ss; ss << t; return ss.str(); }
+    std::stringstream ss; ss.exceptions(std::ios_base::badbit); ss << t; return ss.str(); }
 template<class T> inline String to_str(T const& t) {
     return to_string(t); }
 
-- 
2.43.0


From 50d43626e5dea37b025fc2d91e36891a4b7b2ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:52 +0000
Subject: [PATCH 06/26] fix: Array leaks or loses its elements when an element
 or the storage cannot be constructed, and leaks on move assignment

---
 source/utility/array.hpp | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/source/utility/array.hpp b/source/utility/array.hpp
index c3e33ce..1e4e959 100644
--- a/source/utility/array.hpp
+++ b/source/utility/array.hpp
@@ -75,7 +75,7 @@ class Array {
     //! \brief Default constructor. Constructs an empty Array.
     Array() : _size(0), _ptr(0) { }
     //! \brief Constructs an Array of size \a n with default-initialised elements.
-    explicit Array(const SizeType n) : _size(n), _ptr(uninitialized_new(n)) { for(SizeType i=0; i!=n; ++i) { new (_ptr+i) T(); } }
+    explicit Array(const SizeType n) : _size(n), _ptr(uninitialized_new(n)) { this->_uninitialized_construct([](T* p, SizeType){ new (p) T(); }); }
     //! \brief Constructs an Array of size \a n with uninitialised elements. The elements should be initialised using placement new.
     explicit Array(const SizeType n, Uninitialised) : _size(n), _ptr(uninitialized_new(n)) { }
     //! \brief Constructs an Array of size \a n with elements initialised to \a x.
@@ -128,11 +128,11 @@ class Array {
     //! \brief Copy assignment.
     Array<T>& operator=(const Array<T>& a) {
         if(this->size()==a.size()) { fill(a.begin()); }
-        else { this->_destroy_elements(); uninitialized_delete(_ptr); _size=a.size(); _ptr=uninitialized_new(_size); this->_uninitialized_fill(a.begin()); }
+        else { Array<T> r(a); this->swap(r); }
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
-        if(this!=&a) { this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
+        if(this!=&a) { Array<T> r(std::move(a)); this->swap(r); } return *this; }
 
     //! \brief True if the Array's size is 0.
     bool empty() const { return _size==0u; }
@@ -144,18 +144,17 @@ class Array {
     void resize(SizeType n) {
         static_assert(DefaultConstructible<T>);
         if(size()!=n) {
-            pointer _new_ptr=uninitialized_new(n);
-            for(SizeType i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(); } }
-            this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
+            Array<T> r; r._ptr=uninitialized_new(n);
+            while(r._size!=n) { if(r._size<_size) { new (r._ptr+r._size) T(_ptr[r._size]); } else { new (r._ptr+r._size) T(); } ++r._size; }
+            this->swap(r); } }
     //! \brief Resizes the Array to hold \a n elements. If \a n is larger than the current size, the extra elements are initialised with value \a t.
     void resize(SizeType n, const T& t) {
         if(size()!=n) {
-            pointer _new_ptr=uninitialized_new(n);
-            for(SizeType i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(t); } }
-            this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
+            Array<T> r; r._ptr=uninitialized_new(n);
+            while(r._size!=n) { if(r._size<_size) { new (r._ptr+r._size) T(_ptr[r._size]); } else { new (r._ptr+r._size) T(t); } ++r._size; }
+            this->swap(r); } }
     //! \brief Reallocates the Array to hold \a n elements. The new elements are default-constructed.
-    void reallocate(SizeType n) { if(size()!=n) { this->_destroy_elements(); uninitialized_delete(_ptr);
-        _size=n; _ptr=uninitialized_new(_size); for(SizeType i=0; i!=_size; ++i) { new (_ptr+i) T(); } } }
+    void reallocate(SizeType n) { if(size()!=n) { Array<T> r(n); this->swap(r); } }
     //! \brief Efficiently swap two arrays.
     void swap(Array<T>& a) { std::swap(_size,a._size); std::swap(_ptr,a._ptr); }
 
@@ -205,16 +204,19 @@ class Array {
         resize(std::distance(first,last)); fill(first); }
   private:
     void _destroy_elements() { pointer curr=_ptr+_size; while(curr!=_ptr) { --curr; curr->~T(); } }
+    // Construct all elements in the uninitialised storage; only for use in constructors, since storage is released if an element cannot be constructed.
+    template<class C> void _uninitialized_construct(C const& construct) {
+        SizeType i=0u;
+        try { for(; i!=_size; ++i) { construct(_ptr+i,i); } }
+        catch(...) { while(i!=0u) { --i; (_ptr+i)->~T(); } uninitialized_delete(_ptr); throw; } }
     void _uninitialized_fill(const ValueType& x) {
-        pointer curr=_ptr; pointer end=_ptr+_size; while(curr!=end) { new (curr) T(x); ++curr; } }
+        this->_uninitialized_construct([&x](T* p, SizeType){ new (p) T(x); }); }
     template<class InputIterator> void _uninitialized_fill(InputIterator first) {
-        pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first); ++curr; ++first; } }
+        this->_uninitialized_construct([&first](T* p, SizeType){ new (p) T(*first); ++first; }); }
     template<class InputIterator, class Parameters> void _uninitialized_fill(InputIterator first, Parameters parameters) {
-        pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first,parameters); ++curr; ++first; } }
+        this->_uninitialized_construct([&first,&parameters](T* p, SizeType){ new (p) T(*first,parameters); ++first; }); }
     template<class G> void _uninitialized_generate(G g) {
-        for(SizeType i=0u; i!=this->size(); ++i) { new (_ptr+i) T(g(i)); } }
+        this->_uninitialized_construct([&g](T* p, SizeType i){ new (p) T(g(i)); }); }
   private:
     SizeType _size;
     pointer _ptr;
-- 
2.43.0


From 8055a284b0f844e45d1aa90f92f5b3e5ba586bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:52 +0000
Subject: [PATCH 07/26] fix: multi-index assignment, resizing and increment
 access released or foreign storage

---
 source/algebra/multi_index.cpp     | 7 ++++---
 source/algebra/multi_index.inl.hpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/algebra/multi_index.cpp b/source/algebra/multi_index.cpp
index ab139c9..30dc8c7 100644
--- a/source/algebra/multi_index.cpp
+++ b/source/algebra/multi_index.cpp
@@ -30,12 +30,12 @@ namespace Ariadne {
 
 MultiIndex& MultiIndex::operator++() {
     assert(_n>0);
-    if(_n==1) { ++_p[0]; ++_p[_n]; return *this; }
+    if(_n==1) { ++_p[0]; return *this; }
     if(_p[_n-2]!=0) { --_p[_n-2]; ++_p[_n-1]; return *this; }
     else {
         IndexType li=_p[_n-1]; _p[_n-1]=0;
         for(SizeType k=_n-1; k!=0; --k) { if(_p[k-1]!=0) { --_p[k-1]; _p[k]=li+1u; return *this; } }
-        _p[0]=li+1u; ++_p[_n];
+        _p[0]=li+1u;
     }
     return *this;
 }
@@ -77,13 +77,14 @@ MultiIndexList::MultiIndexList(MultiIndexList const& lst) : MultiIndexList(lst.a
 
 MultiIndexList& MultiIndexList::operator=(MultiIndexList const& lst) {
     if(this != &lst) {
+        DegreeType* new_indices=new DegreeType[lst._capacity*lst._argument_size];
         delete[] _indices;
+        _indices=new_indices;
 
         _capacity=lst._capacity;
         _size=lst._size;
         _argument_size=lst._argument_size;
 
-        _indices=new DegreeType[_capacity*_argument_size];
         for(SizeType k=0; k!=_size*_argument_size; ++k) { _indices[k]=lst._indices[k]; }
     }
     return *this;
diff --git a/source/algebra/multi_index.inl.hpp b/source/algebra/multi_index.inl.hpp
index 39bc572..de03d70 100644
--- a/source/algebra/multi_index.inl.hpp
+++ b/source/algebra/multi_index.inl.hpp
@@ -79,7 +79,7 @@ inline MultiIndex& MultiIndex::operator=(const MultiIndex& a) {
 inline MultiIndex MultiIndex::zero(SizeType nv) { MultiIndex a(nv); a.clear(); return a; }
 inline MultiIndex MultiIndex::unit(SizeType nv, SizeType j) { MultiIndex a=MultiIndex::zero(nv); a[j]=1u; return a; }
 
-inline Void MultiIndex::resize(SizeType n) { if(_n!=n) { _n=n; delete[] _p; _p=new DegreeType[std::max(n,1lu)]; } }
+inline Void MultiIndex::resize(SizeType n) { if(_n!=n) { DegreeType* p=new DegreeType[std::max(n,1lu)]; delete[] _p; _n=n; _p=p; } }
 inline Void MultiIndex::clear() { for(SizeType i=0; i!=_n; ++i) { _p[i]=0u; } }
 
 inline MultiIndex& MultiIndex::operator+=(const MultiIndex& a) { assert(_n==a._n); for(SizeType i=0; i!=_n; ++i) { _p[i]+=a._p[i]; } return *this; }
-- 
2.43.0


From 82582679527befcd16842735b1e7f0ec03365520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:52 +0000
Subject: [PATCH 08/26] fix: composition of differentials modifies its
 arguments and overruns the univariate derivative

---
 source/algebra/differential.tpl.hpp            | 16 ++++++----------
 source/algebra/univariate_differential.tpl.hpp | 11 +++++------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 7260603..8d5dd47 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -591,14 +591,12 @@ Differential<X> Differential<X>::_compose(const UnivariateDifferential<X>& x, co
 template<class X>
 Differential<X> Differential<X>::_compose(const Differential<X>& x, const Vector<Differential<X>>& y)
 {
-    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
+    Vector<Differential<X>> w(y);
     X zero(y.zero_element().zero_coefficient());
-    Vector<X> yv(y.size(),zero);
     DegreeType deg=min(x.degree(),y.degree());
-    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
-    Differential<X> r=_evaluate(x,ync);
+    for(SizeType i=0; i!=w.result_size(); ++i) { w[i].set_value(zero); }
+    Differential<X> r=_evaluate(x,w);
     r.set_degree(deg);
-    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
     return r;
 }
 
@@ -608,13 +606,11 @@ Vector<Differential<X>> Differential<X>::_compose(const Vector<Differential<X>>&
 {
     //std::cerr<<"compose(DV x, DV y)\n x="<<x<<"\n y="<<y<<std::endl;
     X zero(y.zero_element().zero_coefficient());
-    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
-    Vector<X> yv(y.size(),zero);
+    Vector<Differential<X>> w(y);
     DegreeType deg=min(x.degree(),y.degree());
-    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
+    for(SizeType i=0; i!=w.result_size(); ++i) { w[i].set_value(zero); }
     Vector<Differential<X>> r(x.size(),y.argument_size(),deg,y.zero_coefficient());
-    for(SizeType i=0; i!=x.result_size(); ++i) { r[i]=_evaluate(x[i],y); r[i].set_degree(deg); }
-    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
+    for(SizeType i=0; i!=x.result_size(); ++i) { r[i]=_evaluate(x[i],w); r[i].set_degree(deg); }
     return r;
 }
 
diff --git a/source/algebra/univariate_differential.tpl.hpp b/source/algebra/univariate_differential.tpl.hpp
index 6f39dba..b7ae813 100644
--- a/source/algebra/univariate_differential.tpl.hpp
+++ b/source/algebra/univariate_differential.tpl.hpp
@@ -101,16 +101,15 @@ template<class X>
 UnivariateDifferential<X> UnivariateDifferential<X>::_compose(const UnivariateDifferential<X>& x, const UnivariateDifferential<X>& y)
 {
     DegreeType d=std::min(x.degree(),y.degree());
-    X y0 = y[0];
-    X z = Ariadne::create_zero(y0);
-    const_cast<X&>(y[0]) = z;
+    X z = Ariadne::create_zero(y[0]);
+    UnivariateDifferential<X> w(y);
+    w[0] = z;
     UnivariateDifferential<X> r(d, z);
     r[0]=x[d];
     for(DegreeType n=1; n<=d; ++n) {
-        r=r*y;
+        r=r*w;
         r[0]+=x[static_cast<SizeType>(d-n)];
     }
-    const_cast<X&>(y[0])=y0;
     return r;
 }
 
@@ -119,7 +118,7 @@ UnivariateDifferential<X>
 UnivariateDifferential<X>::_derivative(const UnivariateDifferential<X>& x)
 {
     DegreeType n=x.degree(); DegreeType one=1u;
-    UnivariateDifferential<X> r(std::min(n,one)-one,x.zero_coefficient());
+    UnivariateDifferential<X> r(std::max(n,one)-one,x.zero_coefficient());
     if(n==0) { r[0]=x[0]*0; }
     for(DegreeType i=0; i<n; ++i) {
         r[i]=(i+1u)*x[i+1u];
-- 
2.43.0


From a7a0798f5fb3b0050286c5c95829ebfccd71414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:52 +0000
Subject: [PATCH 09/26] fix: joining vectors destroys elements never
 constructed if copying an element fails

---
 source/algebra/covector.hpp     | 21 +++++----------------
 source/algebra/differential.hpp |  3 +--
 source/algebra/vector.hpp       | 16 +---------------
 3 files changed, 7 insertions(+), 33 deletions(-)

diff --git a/source/algebra/covector.hpp b/source/algebra/covector.hpp
index 3825836..7e0ce73 100644
--- a/source/algebra/covector.hpp
+++ b/source/algebra/covector.hpp
@@ -188,32 +188,21 @@ class ProvideCovectorOperations {
 template<class X>
 Covector<X> cojoin(const Covector<X>& u1, const Covector<X>& u2)
 {
-    Array<X> ra(u1.size()+u2.size(),Uninitialised());
-    X* rp=ra.begin();
-    for(X const* u1p=u1.array().begin(); u1p!=u1.array().end(); ++rp, ++u1p) { new (rp) X(*u1p); }
-    for(X const* u2p=u2.array().begin(); u2p!=u2.array().end(); ++rp, ++u2p) { new (rp) X(*u2p); }
-    assert(rp==ra.end());
-    return Covector<X>(std::move(ra));
+    SizeType n1=u1.size();
+    return Covector<X>(Array<X>(n1+u2.size(),[&](SizeType i)->X{return i<n1?u1.array()[i]:u2.array()[i-n1];}));
 }
 
 template<class X>
 Covector<X> cojoin(const Covector<X>& u1, const typename Covector<X>::ScalarType& s2)
 {
-    Array<X> ra(u1.size()+1u,Uninitialised());
-    X* rp=ra.begin();
-    for(X const* u1p=u1.array().begin(); u1p!=u1.array().end(); ++rp, ++u1p) { new (rp) X(*u1p); }
-    new (rp) X(s2);
-    return Covector<X>(std::move(ra));
+    SizeType n1=u1.size();
+    return Covector<X>(Array<X>(n1+1u,[&](SizeType i)->X{return i<n1?u1.array()[i]:s2;}));
 }
 
 template<class X>
 Covector<X> cojoin(const typename Covector<X>::ScalarType& s1, const Covector<X>& u2)
 {
-    Array<X> ra(1u+u2.size(),Uninitialised());
-    X* rp=ra.begin();
-    new (rp) X(s1); ++rp;
-    for(X const* u2p=u2.array().begin(); u2p!=u2.array().end(); ++rp, ++u2p) { new (rp) X(*u2p); }
-    return Covector<X>(std::move(ra));
+    return Covector<X>(Array<X>(1u+u2.size(),[&](SizeType i)->X{return i==0u?s1:u2.array()[i-1u];}));
 }
 
 
diff --git a/source/algebra/differential.hpp b/source/algebra/differential.hpp
index d51a734..f214346 100644
--- a/source/algebra/differential.hpp
+++ b/source/algebra/differential.hpp
@@ -521,9 +521,8 @@ Vector<Differential<X>>::Vector(SizeType n, G const& g)
 
 template<class X> template<class E>
 Vector<Differential<X>>::Vector(const VectorExpression<E>& ve)
-    : _chars((assert(ve().size()>0),ve()[0u])), _ary(ve().size(),Uninitialised())
+    : _chars((assert(ve().size()>0),ve()[0u])), _ary(ve().size(),[&ve](SizeType i)->Differential<X>{return Differential<X>(ve()[i]);})
 {
-    for(SizeType i=0; i!=_ary.size(); ++i) { new (&_ary[i]) Differential<X>(ve()[i]); }
     ARIADNE_ASSERT(_ary.size()!=0); _chars=DifferentialCharacteristics<X>(_ary[0]);
 }
 
diff --git a/source/algebra/vector.hpp b/source/algebra/vector.hpp
index e5d7c76..f85de60 100644
--- a/source/algebra/vector.hpp
+++ b/source/algebra/vector.hpp
@@ -585,22 +585,8 @@ template<class V> using ScalarType = typename V::ScalarType;
 template<class X>
 Vector<X> join(const Vector<X>& v1, const Vector<X>& v2)
 {
-
-    Array<X> ra(v1.size()+v2.size(),Uninitialised());
-    X* rp=ra.begin();
-    for(X const* vp=v1.array().begin(); vp!=v1.array().end(); ++rp, ++vp) { new (rp) X(*vp); }
-    for(X const* vp=v2.array().begin(); vp!=v2.array().end(); ++rp, ++vp) { new (rp) X(*vp); }
-    assert(rp==ra.end());
-    return Vector<X>(std::move(ra));
-
-    if(v1.size()==0) { return v2; }
-    if(v2.size()==0) { return v1; }
     SizeType n1=v1.size();
-    SizeType n2=v2.size();
-    Vector<X> r(n1+n2,v1[0]);
-    for(SizeType i=0; i!=v1.size(); ++i) { r[i]=v1[i]; }
-    for(SizeType i=0; i!=v2.size(); ++i) { r[v1.size()+i]=v2[i]; }
-    return r;
+    return Vector<X>(Array<X>(n1+v2.size(),[&](SizeType i)->X{return i<n1?v1.array()[i]:v2.array()[i-n1];}));
 }
 
 
-- 
2.43.0


From 857c1e7c53c2ba1bd0f4e31109bdebd80f351350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:44 +0000
Subject: [PATCH 10/26] fix: comparing two numbers leaks its result

---
 source/numeric/logical.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/numeric/logical.cpp b/source/numeric/logical.cpp
index 67f0006..866e33d 100644
--- a/source/numeric/logical.cpp
+++ b/source/numeric/logical.cpp
@@ -81,6 +81,7 @@ LogicalInterface* new_logical_pointer_from_value(LogicalValue v) {
 }
 
 LogicalValue logical_value_from_pointer(LogicalInterface* ptr) {
+    SharedPointer<LogicalInterface> owner(ptr);
     auto vlptr=dynamic_cast<LogicalWrapper<LogicalValue>*>(ptr);
     if (!vlptr) { throw std::runtime_error("logical_type_from_pointer: No conversion from abstract to concrete logical value"); }
     return *vlptr;
-- 
2.43.0


From 29e9e4ac5592e2b8fdc2c125750a2233e3ac7a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:34 +0000
Subject: [PATCH 11/26] fix: assigning a function patch leaves a dangling
 pointer if copying it fails

---
 source/utility/pointer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/utility/pointer.hpp b/source/utility/pointer.hpp
index 7621b4c..d3a4bcf 100644
--- a/source/utility/pointer.hpp
+++ b/source/utility/pointer.hpp
@@ -141,7 +141,7 @@ class copy_on_copy_ptr
     template<class S> copy_on_copy_ptr<T>& operator=(S* pointer) {
         delete _ptr; _ptr=pointer; return *this; }
     copy_on_copy_ptr<T>& operator=(const copy_on_copy_ptr<T>& other) {
-        if(_ptr!=other._ptr) { delete _ptr; _ptr=other._ptr?other._ptr->clone():other._ptr; } return *this; }
+        if(_ptr!=other._ptr) { T* ptr=other._ptr?other._ptr->clone():other._ptr; delete _ptr; _ptr=ptr; } return *this; }
     const T& operator*() const { return *_ptr; }
     const T* operator->() const { return _ptr; }
     T& operator*() { return *_ptr; }
@@ -171,7 +171,7 @@ class clone_on_copy_ptr
     template<class S> clone_on_copy_ptr<T>& operator=(S* pointer) {
         delete _ptr; _ptr=pointer; return *this; }
     clone_on_copy_ptr<T>& operator=(const clone_on_copy_ptr<T>& other) {
-        if(_ptr!=other._ptr) { delete _ptr; _ptr=other._ptr?other._ptr->_clone():other._ptr; } return *this; }
+        if(_ptr!=other._ptr) { T* ptr=other._ptr?other._ptr->_clone():other._ptr; delete _ptr; _ptr=ptr; } return *this; }
     const T& operator*() const { return *_ptr; }
     const T* operator->() const { return _ptr; }
     T& operator*() { return *_ptr; }
-- 
2.43.0


From 007be85b70f37cefd05580dde683d8aee726d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:35 +0000
Subject: [PATCH 12/26] fix: Taylor and affine model arithmetic changes the
 rounding mode of its caller

---
 source/algebra/matrix.tpl.hpp        |  3 +-
 source/function/affine_model.tpl.hpp |  5 ++--
 source/function/model_utilities.hpp  | 12 ++++++++
 source/function/taylor_model.tpl.hpp | 41 ++++++++++++----------------
 source/numeric/rounding.hpp          | 11 ++++++++
 5 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/source/algebra/matrix.tpl.hpp b/source/algebra/matrix.tpl.hpp
index 6d2aa09..dcf8eb2 100644
--- a/source/algebra/matrix.tpl.hpp
+++ b/source/algebra/matrix.tpl.hpp
@@ -554,7 +554,7 @@ normalise_rows(Matrix<X>& A)
     const SizeType m=A.row_size();
     const SizeType n=A.column_size();
 
-    auto prev_rounding_mode=X::get_rounding_mode();
+    RoundingModeGuard<X> rounding_mode_guard;
     X::set_rounding_upward();
     Array<X> row_asums(m,A.zero_element());
     for(SizeType i=0; i!=m; ++i) {
@@ -569,7 +569,6 @@ normalise_rows(Matrix<X>& A)
             A[i][j]/=row_asums[i];
         }
     }
-    X::set_rounding_mode(prev_rounding_mode);
 }
 
 
diff --git a/source/function/affine_model.tpl.hpp b/source/function/affine_model.tpl.hpp
index fa87488..d8f09e8 100644
--- a/source/function/affine_model.tpl.hpp
+++ b/source/function/affine_model.tpl.hpp
@@ -231,6 +231,7 @@ template<class F> AffineModel<ValidatedTag,F>::AffineModel(const Affine<NumericT
     for(SizeType j=0; j!=affine.argument_size(); ++j) {
         affine_model[j] = affine[j].value();
     }
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_upward();
     F e(affine_model.error().precision());
     for(SizeType j=0; j!=affine.argument_size(); ++j) {
@@ -240,7 +241,6 @@ template<class F> AffineModel<ValidatedTag,F>::AffineModel(const Affine<NumericT
     e = add(rounded,e,max(sub(rounded,affine.value().upper().raw(),affine_model.value()),
                           sub(rounded,affine_model.value(),affine.value().lower().raw())));
     affine_model.set_error(ErrorType(e));
-    F::set_rounding_to_nearest();
 }
 
 template<class F> AffineModel<ValidatedTag,F>::AffineModel(const TaylorModel<ValidatedTag,F>& taylor_model)
@@ -248,7 +248,7 @@ template<class F> AffineModel<ValidatedTag,F>::AffineModel(const TaylorModel<Val
 {
     AffineModel<ValidatedTag,F>& affine_model=*this;
 
-    typename F::RoundingModeType rnd=F::get_rounding_mode();
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_upward();
     for(auto iter=taylor_model.begin(); iter!=taylor_model.end(); ++iter) {
         if(iter->index().degree()>=2) {
@@ -265,7 +265,6 @@ template<class F> AffineModel<ValidatedTag,F>::AffineModel(const TaylorModel<Val
         }
     }
     affine_model.set_error(taylor_model.error()+affine_model.error());
-    F::set_rounding_mode(rnd);
 }
 
 template<class P, class PR> AffineModel<P,RawFloatType<PR>> affine_model(const BoxDomainType& domain, const ScalarMultivariateFunction<P>& function, PR precision)
diff --git a/source/function/model_utilities.hpp b/source/function/model_utilities.hpp
index 4724185..9cb71a1 100644
--- a/source/function/model_utilities.hpp
+++ b/source/function/model_utilities.hpp
@@ -53,6 +53,7 @@ template<class F> inline Void acc_err(F const& ml, F const& u, F& e) {
 
 template<class F, class PRE> Ball<F,RawFloatType<PRE>> add(F const& x1, F const& x2, PRE pre) {
     F mx1=-x1;
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F r(x1.raw() + x2.raw());
     F::set_rounding_upward();
@@ -65,6 +66,7 @@ template<class F, class PRE> Ball<F,RawFloatType<PRE>> add(F const& x1, F const&
 
 template<class F, class PRE> Ball<F,RawFloatType<PRE>> mul(F const& x1, F const& x2, PRE pre) {
     F mx1=-x1;
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F r(x1.raw() * x2.raw());
     F::set_rounding_upward();
@@ -79,6 +81,7 @@ template<class F, class PRE> Ball<F,RawFloatType<PRE>> mul(F const& x1, F const&
 
 template<class F> F add_err(F const& x1, F const& x2, Error<F>& e) {
     F mx1=-x1;
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F r(add(rounded,x1,x2));
     F::set_rounding_upward();
@@ -94,6 +97,7 @@ template<class F> F add_err(F const& x, ValidatedApproximation<F> const& c, Erro
     F const& cm=c.middle_raw();
     F const& cu=c.upper_raw();
     F& re=e.raw();
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F rv=add(rounded,xv,cm);
     F::set_rounding_upward();
@@ -125,6 +129,7 @@ template<class F> Approximation<F> add_err(Approximation<F> const& x1, Approxima
 
 template<class F> F sub_err(F const& x1, F const& x2, Error<F>& e) {
     F mx1=-x1;
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F r(sub(rounded,x1.raw(),x2.raw()));
     F::set_rounding_upward();
@@ -151,6 +156,7 @@ template<class F> Approximation<F> sub_err(Approximation<F> const& x1, Approxima
 }
 
 template<class F> F mul_no_err(F const& x1, F const& x2) {
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F r(x1.raw() * x2.raw());
     F::set_rounding_upward();
@@ -163,6 +169,7 @@ template<class F> Approximation<F> mul_no_err(Approximation<F> const& x1, Approx
 
 template<class F> F mul_err(F const& x1, F const& x2, Error<F>& e) {
     F mx1=-x1;
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F r(mul(rounded,x1,x2));
     F::set_rounding_upward();
@@ -178,6 +185,7 @@ template<class F> F mul_err(F const& x, ValidatedApproximation<F> const& c, Erro
     F const& cm=c.middle_raw();
     F const& cl=c.lower_raw();
     F& re=e.raw();
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F rv=mul(rounded,xv,cm);
     F::set_rounding_upward();
@@ -233,6 +241,7 @@ template<class F> Approximation<F> mul_err(Approximation<F> const& x1, Nat n2, U
 
 template<class F> F div_err(F const& x1, F const& x2, Error<F>& e) {
     F mx1=-x1;
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F r(div(rounded,x1.raw(),x2.raw()));
     F::set_rounding_upward();
@@ -278,6 +287,7 @@ template<class F> F fma_err(F const& x, F const& y, F z, Error<F>& e) {
     F const& yv=y.raw();
     F const& zv=z.raw();
     F& re=e.raw();
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F rv=fma(rounded,xv,yv,zv);
     F::set_rounding_upward();
@@ -296,6 +306,7 @@ template<class F> F fma_err(ValidatedApproximation<F> const& c, F const& x, F y,
     F const& cl=c.lower_raw();
     F const& yv=y.raw();
     F& re=e.raw();
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F rv=fma(rounded,xv,cm,yv);
     F::set_rounding_upward();
@@ -337,6 +348,7 @@ template<class F> Approximation<F> fma_err(Approximation<F> const& x, Approximat
 
 // Returns an approximation to a1*b2+a2*b2, adding error to e
 template<class F> F lin_err(F const& a1, F const& b1, F const& a2, F const& b2, Error<F>& e) {
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F r=cast_exact(cast_rounded(a1)*cast_rounded(b2)+cast_rounded(b1)*cast_rounded(a2));
     F::set_rounding_upward();
diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index 2a42577..66511f4 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -216,7 +216,7 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,Float<PR>>& p, FloatError<PR>&
     typename Expansion<MultiIndex,Float<PR>>::ConstIterator adv=p.begin();
     typename Expansion<MultiIndex,Float<PR>>::Iterator curr=p.begin();
 
-    // FIXME: Not needed, but added to pair with rounding mode change below
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_upward();
     FloatError<PR> te(e.precision());
     while(adv!=end) {
@@ -230,9 +230,6 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,Float<PR>>& p, FloatError<PR>&
         ++adv;
     }
     e+=te;
-
-    // FIXME: Removing reset of rounding mode causes error in TestNonlinear programming
-    F::set_rounding_to_nearest();
     p.resize(static_cast<SizeType>(curr-p.begin()));
 }
 
@@ -243,7 +240,7 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,FloatBounds<PR>>& p, FloatError
     typename Expansion<MultiIndex,FloatBounds<PR>>::ConstIterator adv=p.begin();
     typename Expansion<MultiIndex,FloatBounds<PR>>::Iterator curr=p.begin();
 
-    // FIXME: Not needed, but added to pair with rounding mode change below
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_upward();
     FloatError<PR> te(e.precision());
     while(adv!=end) {
@@ -257,9 +254,6 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,FloatBounds<PR>>& p, FloatError
         ++adv;
     }
     e+=te;
-
-    // FIXME: Removing reset of rounding mode causes error in TestNonlinear programming
-    F::set_rounding_to_nearest();
     p.resize(static_cast<SizeType>(curr-p.begin()));
 }
 
@@ -288,7 +282,7 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,FloatUpperInterval<PR>>& p, Flo
     typename Expansion<MultiIndex,FloatUpperInterval<PR>>::ConstIterator adv=p.begin();
     typename Expansion<MultiIndex,FloatUpperInterval<PR>>::Iterator curr=p.begin();
 
-    // FIXME: Not needed, but added to pair with rounding mode change below
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_upward();
     FloatError<PR> te(e.precision());
     while(adv!=end) {
@@ -302,9 +296,6 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,FloatUpperInterval<PR>>& p, Flo
         ++adv;
     }
     e+=te;
-
-    // FIXME: Removing reset of rounding mode causes error in TestNonlinear programming
-    F::set_rounding_to_nearest();
     p.resize(static_cast<SizeType>(curr-p.begin()));
 }
 
@@ -330,7 +321,7 @@ Void RelativeSweeperBase<F>::_sweep(Expansion<MultiIndex,Float<PR>>& p, FloatErr
 
     FloatError<PR> nrm=radius(p)+e;
 
-    // FIXME: Not needed, but added to pair with rounding mode change below
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_upward();
     FloatError<PR> te(e.precision());
     while(adv!=end) {
@@ -344,9 +335,6 @@ Void RelativeSweeperBase<F>::_sweep(Expansion<MultiIndex,Float<PR>>& p, FloatErr
         ++adv;
     }
     e+=te;
-
-    // FIXME: Removing reset of rounding mode causes error in TestNonlinear programming
-    F::set_rounding_to_nearest();
     p.resize(static_cast<SizeType>(curr-p.begin()));
 }
 
@@ -359,7 +347,7 @@ Void RelativeSweeperBase<F>::_sweep(Expansion<MultiIndex,FloatBounds<PR>>& p, Fl
 
     FloatError<PR> nrm=radius(p)+e;
 
-    // FIXME: Not needed, but added to pair with rounding mode change below
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_upward();
     FloatError<PR> te(e.precision());
     while(adv!=end) {
@@ -373,9 +361,6 @@ Void RelativeSweeperBase<F>::_sweep(Expansion<MultiIndex,FloatBounds<PR>>& p, Fl
         ++adv;
     }
     e+=te;
-
-    // FIXME: Removing reset of rounding mode causes error in TestNonlinear programming
-    F::set_rounding_to_nearest();
     p.resize(static_cast<SizeType>(curr-p.begin()));
 }
 
@@ -410,7 +395,7 @@ Void RelativeSweeperBase<F>::_sweep(Expansion<MultiIndex,FloatUpperInterval<PR>>
 
     FloatError<PR> nrm=radius(p)+e;
 
-    // FIXME: Not needed, but added to pair with rounding mode change below
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_upward();
     FloatError<PR> te(0u,e.precision());
     while(adv!=end) {
@@ -424,9 +409,6 @@ Void RelativeSweeperBase<F>::_sweep(Expansion<MultiIndex,FloatUpperInterval<PR>>
         ++adv;
     }
     e+=te;
-
-    // FIXME: Removing reset of rounding mode causes error in TestNonlinear programming
-    F::set_rounding_to_nearest();
     p.resize(static_cast<SizeType>(curr-p.begin()));
 }
 
@@ -592,6 +574,7 @@ template<ARawFloat F> Rounded<F>& cast_rounded(Error<F>& x) { return reinterpret
 
 template<class F, class PRE> Ball<F,RawFloatType<PRE>> add(F const& x1, F const& x2, PRE pre) {
     F mx1=-x1;
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F r(x1.raw() + x2.raw());
     F::set_rounding_upward();
@@ -603,6 +586,7 @@ template<class F, class PRE> Ball<F,RawFloatType<PRE>> add(F const& x1, F const&
 }
 template<class F, class PRE> Ball<F,RawFloatType<PRE>> mul(F const& x1, F const& x2, PRE pre) {
     F mx1=-x1;
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F r(x1.raw() * x2.raw());
     F::set_rounding_upward();
@@ -617,6 +601,7 @@ template<class F, class PRE> Ball<F,RawFloatType<PRE>> mul(F const& x1, F const&
 
 template<class F> F add_err(F const& x1, F const& x2, Error<F>& e) {
     Rounded<F> mx1=-x1;
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     Rounded<F> r(cast_rounded(x1) + cast_rounded(x2));
     F::set_rounding_upward();
@@ -632,6 +617,7 @@ template<class F> F add_err(F const& x, ValidatedApproximation<F> const& c, Erro
     Rounded<F> const& cm=c.middle_raw();
     Rounded<F> const& cu=c.upper_raw();
     Rounded<F>& re=cast_rounded(e);
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     Rounded<F> rv=xv+cm;
     F::set_rounding_upward();
@@ -663,6 +649,7 @@ template<class F> Approximation<F> add_err(Approximation<F> const& x1, Approxima
 
 template<class F> F sub_err(F const& x1, F const& x2, Error<F>& e) {
     Rounded<F> mx1=-x1;
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F r(cast_rounded(x1) - cast_rounded(x2));
     F::set_rounding_upward();
@@ -689,6 +676,7 @@ template<class F> Approximation<F> sub_err(Approximation<F> const& x1, Approxima
 }
 
 template<class F> F mul_no_err(F const& x1, F const& x2) {
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F r(x1.raw() * x2.raw());
     F::set_rounding_upward();
@@ -701,6 +689,7 @@ template<class F> Approximation<F> mul_no_err(Approximation<F> const& x1, Approx
 
 template<class F> F mul_err(F const& x1, F const& x2, Error<F>& e) {
     Rounded<F> mx1=-x1;
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F r(cast_rounded(x1) * cast_rounded(x2));
     F::set_rounding_upward();
@@ -716,6 +705,7 @@ template<class F> F mul_err(F const& x, ValidatedApproximation<F> const& c, Erro
     Rounded<F> const& cm=c.middle_raw();
     Rounded<F> const& cl=c.lower_raw();
     Rounded<F>& re=cast_rounded(e);
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     Rounded<F> rv=xv*cm;
     F::set_rounding_upward();
@@ -771,6 +761,7 @@ template<class F> Approximation<F> mul_err(Approximation<F> const& x1, Nat n2, U
 
 template<class F> F div_err(F const& x1, F const& x2, Error<F>& e) {
     Rounded<F> mx1=-x1;
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     F r(cast_rounded(x1) / cast_rounded(x2));
     F::set_rounding_upward();
@@ -817,6 +808,7 @@ template<class F> F fma_err(F const& x, F const& y, F z, Error<F>& e) {
     Rounded<F> const& yv=y.raw();
     Rounded<F>const& zv=z.raw();
     Rounded<F>& re=cast_rounded(e);
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     Rounded<F> rv=xv*yv+zv;
     F::set_rounding_upward();
@@ -834,6 +826,7 @@ template<class F> F fma_err(ValidatedApproximation<F> const& c, F const& x, F y,
     Rounded<F> const& cl=c.lower_raw();
     Rounded<F> const& yv=y.raw();
     Rounded<F>& re=cast_rounded(e);
+    RoundingModeGuard<F> rounding_mode_guard;
     F::set_rounding_to_nearest();
     Rounded<F> rv=xv*cm+yv;
     F::set_rounding_upward();
diff --git a/source/numeric/rounding.hpp b/source/numeric/rounding.hpp
index 26aacb6..b05bdbe 100644
--- a/source/numeric/rounding.hpp
+++ b/source/numeric/rounding.hpp
@@ -272,6 +272,17 @@ class Rounding {
 };
 
 
+//! \brief Restores the rounding mode of \a F on destruction to the value it had on construction,
+//! so that code changing the rounding mode also restores it if an exception is thrown. \ingroup NumericModule
+template<class F> class RoundingModeGuard {
+    decltype(F::get_rounding_mode()) _rnd;
+  public:
+    RoundingModeGuard() : _rnd(F::get_rounding_mode()) { }
+    ~RoundingModeGuard() { F::set_rounding_mode(_rnd); }
+    RoundingModeGuard(const RoundingModeGuard<F>&) = delete;
+    RoundingModeGuard<F>& operator=(const RoundingModeGuard<F>&) = delete;
+};
+
 const RoundDownward downward = RoundDownward(); //!< Round exact answer downward to a representable value. Synonymous with \ref down. \ingroup NumericModule
 const RoundToNearest to_nearest = RoundToNearest(); //!< Round exact answer to a nearest representable value. Synonymous with \ref near. \ingroup NumericModule
 const RoundUpward upward = RoundUpward(); //!< Round exact answer upward to a representable value. Synonymous with \ref up. \ingroup NumericModule
-- 
2.43.0


From aee8661445b7cb24a8033f05eab9a2be66406592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:53 +0000
Subject: [PATCH 13/26] fix: setting a component of a function does not change
 its copies

---
 source/function/function.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/function/function.cpp b/source/function/function.cpp
index bd4027f..c9794cb 100644
--- a/source/function/function.cpp
+++ b/source/function/function.cpp
@@ -396,6 +396,8 @@ template<class P, class SIG> auto Function<P,SIG>::get(SizeType i) const -> Scal
 template<class P, class SIG> Void Function<P,SIG>::set(SizeType i, ScalarFunction<P,ARG> sf) {
     ARIADNE_ASSERT(i<this->result_size());
     if constexpr (Same<ResultSizeType,SizeType>) {
+        // Copy-on-write, since other functions may be handles to the same object.
+        if (this->_ptr.use_count()!=1) { this->_ptr=SharedPointer<const Interface>(this->_ptr->_copy()); }
         const VectorOfScalarFunction<P,ARG>* cvf =
             dynamic_cast<const FunctionWrapper<VectorOfScalarFunction<P,ARG>,P,SIG>*>(this->_ptr.operator->());
         if (cvf==nullptr) {
-- 
2.43.0


From 187143bae60e1b89b10029a538d8ebfb82b4de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:53 +0000
Subject: [PATCH 14/26] fix: combining intervals does not read past the end of
 the list

---
 source/geometry/union_of_intervals.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/union_of_intervals.hpp b/source/geometry/union_of_intervals.hpp
index 58fab8f..fc5106c 100644
--- a/source/geometry/union_of_intervals.hpp
+++ b/source/geometry/union_of_intervals.hpp
@@ -203,7 +203,7 @@ template<class U> Void UnionOfIntervals<U>::_combine() {
     while (next!=end()) {
         *curr=*next;
         ++next;
-        while (next!=end() && next->lower_bound()<=curr->upper_bound()) {
+        while (next!=end() && static_cast<Bool>(next->lower_bound()<=curr->upper_bound())) { // Cast since logical operators on Boolean do not short-circuit
             curr->set_upper_bound(max(curr->upper_bound(),next->upper_bound()));
             ++next;
         }
-- 
2.43.0


From cfc5d508c8d118ed72ec091ed29329339985e638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:53 +0000
Subject: [PATCH 15/26] fix: rounded operations and input restore the rounding
 mode when they throw

---
 source/numeric/float_ball.tpl.hpp   | 20 +++++++++++---------
 source/numeric/float_bounds.tpl.hpp |  3 +--
 source/numeric/floatdp.hpp          | 16 ++++++++--------
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/source/numeric/float_ball.tpl.hpp b/source/numeric/float_ball.tpl.hpp
index 5bb60be..86df994 100644
--- a/source/numeric/float_ball.tpl.hpp
+++ b/source/numeric/float_ball.tpl.hpp
@@ -104,15 +104,17 @@ template<class F, class FE> InputStream& Operations<Ball<F,FE>>::_read(InputStre
     static const char pmstr[] = "\u00b1";
     char cpm[3];
     F _v(x.precision()); FE _e(x.error_precision());
-    auto rnd=F::get_rounding_mode();
-    F::set_rounding_to_nearest();
-    is >> _v;
-    is >> cpm[0] >> cpm[1];
-    F::set_rounding_mode(rnd);
-    auto rnde=FE::get_rounding_mode();
-    FE::set_rounding_upward();
-    is >> _e;
-    FE::set_rounding_mode(rnde);
+    {
+        RoundingModeGuard<F> rounding_mode_guard;
+        F::set_rounding_to_nearest();
+        is >> _v;
+        is >> cpm[0] >> cpm[1];
+    }
+    {
+        RoundingModeGuard<FE> rounding_mode_guard;
+        FE::set_rounding_upward();
+        is >> _e;
+    }
     ARIADNE_ASSERT(not is.fail());
     ARIADNE_ASSERT(std::strcmp(cpm,pmstr));
     x._v=_v; x._e=_e;
diff --git a/source/numeric/float_bounds.tpl.hpp b/source/numeric/float_bounds.tpl.hpp
index d04a215..85ec088 100644
--- a/source/numeric/float_bounds.tpl.hpp
+++ b/source/numeric/float_bounds.tpl.hpp
@@ -169,7 +169,7 @@ template<class F> auto Operations<Bounds<F>>::_write(OutputStream& os, Bounds<F>
 template<class F> auto Operations<Bounds<F>>::_read(InputStream& is, Bounds<F>& x) -> InputStream& {
     char cl,cm,cr;
     F _l(x.precision()),_u(x.precision());
-    auto rnd=F::get_rounding_mode();
+    RoundingModeGuard<F> rounding_mode_guard;
     is >> cl;
     F::set_rounding_downward();
     is >> _l;
@@ -177,7 +177,6 @@ template<class F> auto Operations<Bounds<F>>::_read(InputStream& is, Bounds<F>&
     F::set_rounding_upward();
     is >> _u;
     is >> cr;
-    F::set_rounding_mode(rnd);
     ARIADNE_ASSERT(not is.fail());
     ARIADNE_ASSERT(cl=='[' || cl=='(');
     ARIADNE_ASSERT(cm==':' || cm==',' || cm==';');
diff --git a/source/numeric/floatdp.hpp b/source/numeric/floatdp.hpp
index 6020dea..e72e72a 100644
--- a/source/numeric/floatdp.hpp
+++ b/source/numeric/floatdp.hpp
@@ -351,20 +351,20 @@ template<> class Float<DP>
     //!@}
   private:
     template<class OP> static FloatDP _apply_rnd(OP op, RoundingModeType rnd, FloatDP x1, FloatDP x2, FloatDP x3) {
-        auto old_rnd=FloatDP::get_rounding_mode(); FloatDP::set_rounding_mode(rnd);
-        FloatDP r=FloatDP(op(x1.dbl,x2.dbl,x3.dbl)); FloatDP::set_rounding_mode(old_rnd); return r;
+        RoundingModeGuard<FloatDP> guard; FloatDP::set_rounding_mode(rnd);
+        return FloatDP(op(x1.dbl,x2.dbl,x3.dbl));
     }
     template<class OP> static FloatDP _apply_rnd(OP op, RoundingModeType rnd, FloatDP x1, FloatDP x2) {
-        auto old_rnd=FloatDP::get_rounding_mode(); FloatDP::set_rounding_mode(rnd);
-        FloatDP r=FloatDP(op(x1.dbl,x2.dbl)); FloatDP::set_rounding_mode(old_rnd); return r;
+        RoundingModeGuard<FloatDP> guard; FloatDP::set_rounding_mode(rnd);
+        return FloatDP(op(x1.dbl,x2.dbl));
     }
     template<class OP> static FloatDP _apply_rnd(OP op, RoundingModeType rnd, FloatDP x) {
-        auto old_rnd=FloatDP::get_rounding_mode(); FloatDP::set_rounding_mode(rnd);
-        FloatDP r=FloatDP(op(x.dbl)); FloatDP::set_rounding_mode(old_rnd); return r;
+        RoundingModeGuard<FloatDP> guard; FloatDP::set_rounding_mode(rnd);
+        return FloatDP(op(x.dbl));
     }
     template<class OP, BuiltinIntegral N> static FloatDP _apply_rnd(OP op, RoundingModeType rnd, FloatDP x, N n) {
-        auto old_rnd=FloatDP::get_rounding_mode(); FloatDP::set_rounding_mode(rnd);
-        FloatDP r=FloatDP(op(x.dbl,n)); FloatDP::set_rounding_mode(old_rnd); return r;
+        RoundingModeGuard<FloatDP> guard; FloatDP::set_rounding_mode(rnd);
+        return FloatDP(op(x.dbl,n));
     }
   public:
     //! \name Explicitly rounded operations
-- 
2.43.0


From a60a33dbf3aabf7c9e8bfdcc8b61c0a7803d59e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 16/26] fix: free the replaced mantissa in
 FloatMP::set_precision

---
 source/numeric/floatmp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/numeric/floatmp.cpp b/source/numeric/floatmp.cpp
index f2d2091..155d3f4 100644
--- a/source/numeric/floatmp.cpp
+++ b/source/numeric/floatmp.cpp
@@ -265,6 +265,7 @@ Void FloatMP::set_precision(MultiplePrecision pr) {
     mpfr_init2(tmp,pr);
     mpfr_set(tmp,_mpfr,get_rounding_mode());
     mpfr_swap(_mpfr,tmp);
+    mpfr_clear(tmp);
 }
 
 FloatMP::ExponentType FloatMP::exponent() const {
-- 
2.43.0


From 0beecab1e83af8d553a390db0284171a190d1735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:24 +0000
Subject: [PATCH 17/26] fix: write rationals of any size without a fixed buffer
 or leaked temporaries

---
 source/numeric/rational.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/source/numeric/rational.cpp b/source/numeric/rational.cpp
index 711910c..7493c06 100644
--- a/source/numeric/rational.cpp
+++ b/source/numeric/rational.cpp
@@ -522,11 +522,9 @@ Rational operator"" _q(long double x) {
 }
 
 OutputStream& write(OutputStream& os, mpz_t const z) {
-    char str[512];
-    str[511]='\0';
-    mpz_get_str (str, 10, z);
-    assert(str[511]=='\0');
-    return os << str;
+    std::string str(mpz_sizeinbase(z,10)+2,'\0');
+    mpz_get_str (&str[0], 10, z);
+    return os << str.c_str();
 }
 
 InputStream& operator>>(InputStream& is, Rational& q1) {
@@ -538,13 +536,8 @@ InputStream& operator>>(InputStream& is, Rational& q1) {
 // i.e., at least maq1(n + 2, 7). The eq1tra two bytes are for a possible minus sign,
 // and for the terminating null character, and the value 7 accounts for -@Inf@ plus the terminating null character.
 OutputStream& operator<<(OutputStream& os, Rational const& q1) {
-    mpz_t num; mpz_t den;
-    mpz_init(num); mpz_init(den);
-    mpq_get_num(num,q1._mpq);
-    mpq_get_den(den,q1._mpq);
-    write(os,num);
-    if(mpz_cmp_si(den,1)!=0) { os << "/"; write(os,den); }
-    mpz_clear(num); mpz_clear(den);
+    write(os,mpq_numref(q1._mpq));
+    if(mpz_cmp_si(mpq_denref(q1._mpq),1)!=0) { os << "/"; write(os,mpq_denref(q1._mpq)); }
     return os;
 }
 
-- 
2.43.0


From 31296d36791fe03bc2f8a71d4c582748c061c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:24 +0000
Subject: [PATCH 18/26] fix: free the temporary number in Dyadic(String)

---
 source/numeric/dyadic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/numeric/dyadic.cpp b/source/numeric/dyadic.cpp
index b972cf5..72aaa59 100644
--- a/source/numeric/dyadic.cpp
+++ b/source/numeric/dyadic.cpp
@@ -153,16 +153,18 @@ Dyadic::Dyadic(TwoExp const& w) : Dyadic(1u) {
 }
 
 Dyadic::Dyadic(String const& str)
+    : Dyadic()
 {
     mpf_t _mpf_tmp;
     mp_bitcnt_t prec=std::ceil(3+str.size()*3.322265625);
     mpf_init2(_mpf_tmp,prec);
     int fail = mpf_set_str(_mpf_tmp,str.c_str(),10);
     if (fail!=0) {
+        mpf_clear(_mpf_tmp);
         ARIADNE_THROW(std::runtime_error,"Dyadic(string)","String \""<<str<<"\" does not have a valid dyadic number format.");
     }
-    mpf_init2(_mpf,maximum_precision);
     mpf_set(_mpf,_mpf_tmp);
+    mpf_clear(_mpf_tmp);
 
     if (Decimal(*this)!=Decimal(str)) {
         ARIADNE_THROW(std::runtime_error,"Dyadic(string)","String \""<<str<<"\" does not represent an exact dyadic number.");
-- 
2.43.0


From 127e56d3622eeb1c0cf48240941e38d9dfd2c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:24 +0000
Subject: [PATCH 19/26] fix: format string overflow when writing
 multiple-precision numbers

---
 source/numeric/floatmp.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/source/numeric/floatmp.cpp b/source/numeric/floatmp.cpp
index 155d3f4..6a6e228 100644
--- a/source/numeric/floatmp.cpp
+++ b/source/numeric/floatmp.cpp
@@ -493,17 +493,16 @@ Int abslog10floor(FloatMP const& x)
 
 String print(const mpfr_t x, int fdgts, mpfr_rnd_t rnd) {
     // fdgts is the number of places allocated for the fractional part
+    if(fdgts<0) { fdgts=0; }
     char fmt[16];
-    std::strcpy(fmt,"%.");
-    std::snprintf(fmt+2, 14, "%d", fdgts);
-    std::strcat(fmt,"R*f");
+    std::snprintf(fmt,16,"%%.%dR*f",fdgts);
     static const uint buf_size=1024;
     char cstr[buf_size];
     // uint buf_size = zdgts+fdgts+8;
     mpfr_snprintf(cstr,buf_size,fmt,rnd,x);
-    if(fdgts==0) { std::strcat(cstr,"."); }
-    cstr[1023]='\0';
-    return String(cstr);
+    String str(cstr);
+    if(fdgts==0) { str+='.'; }
+    return str;
 }
 
 String print(const mpfr_t x, int zdgts, int fdgts, mpfr_rnd_t rnd) {
-- 
2.43.0


From b605bd50d9060bf1dc99bb73dfe93a25304cec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:46 +0000
Subject: [PATCH 20/26] fix: keep the LRU cache consistent when inserting an
 element throws

---
 source/utility/lru_cache.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/source/utility/lru_cache.hpp b/source/utility/lru_cache.hpp
index 69939b1..0354eba 100644
--- a/source/utility/lru_cache.hpp
+++ b/source/utility/lru_cache.hpp
@@ -73,17 +73,15 @@ template<class L, class V> class LRUCache {
     //! \details The element must not already exist; updates ages accordingly
     Void put(L const& label, V const& val) {
         ARIADNE_PRECONDITION(not has_label(label));
-        if (_elements.size() < _maximum_size) {
-            for (auto& other : _elements) other.second.age++;
-        } else {
-            auto to_remove = _elements.end();
-            for (auto it = _elements.begin(); it != _elements.end(); ++it) {
-                if (it->second.age == _maximum_size-1) to_remove = it;
-                it->second.age++;
-            }
-            _elements.erase(to_remove);
+        // Insert first, so that the cache is unchanged if this throws
+        auto inserted = _elements.insert({label,AgeValuePair(0,val)}).first;
+        auto to_remove = _elements.end();
+        for (auto it = _elements.begin(); it != _elements.end(); ++it) {
+            if (it == inserted) continue;
+            it->second.age++;
+            if (it->second.age == _maximum_size) to_remove = it;
         }
-        _elements.insert({label,AgeValuePair(0,val)});
+        if (to_remove != _elements.end()) _elements.erase(to_remove);
     }
 
     //! \brief The current size due to putting elements
-- 
2.43.0


From af5d34878ebd8a346832e60bbef5052c83660379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:59 +0000
Subject: [PATCH 21/26] fix: keep binary trees consistent when an allocation
 fails or a node is assigned to itself

---
 source/geometry/binary_tree.cpp |  8 ++++--
 source/geometry/binary_tree.hpp | 51 ++++++++++++---------------------
 2 files changed, 23 insertions(+), 36 deletions(-)

diff --git a/source/geometry/binary_tree.cpp b/source/geometry/binary_tree.cpp
index fc33d66..df0700b 100644
--- a/source/geometry/binary_tree.cpp
+++ b/source/geometry/binary_tree.cpp
@@ -325,8 +325,9 @@ Void BinaryTreeNode::add_enabled( BinaryTreeNode* pToTreeRoot, const BinaryTreeN
             } else {
                 //Adding a subtree pFromTreeRoot to a disabled leaf node pToTreeRoot
                 //Using copy constructors here, to avoid memory collisions
-                pToTreeRoot->_pLeftNode = new BinaryTreeNode( *pFromTreeRoot->_pLeftNode );
+                std::unique_ptr<BinaryTreeNode> pLeftNode( new BinaryTreeNode( *pFromTreeRoot->_pLeftNode ) );
                 pToTreeRoot->_pRightNode = new BinaryTreeNode( *pFromTreeRoot->_pRightNode );
+                pToTreeRoot->_pLeftNode = pLeftNode.release();
                 //Set the leaf node as unknown, since we do not know what is below
                 pToTreeRoot->set_unknown();
             }
@@ -378,7 +379,8 @@ Void BinaryTreeNode::add_enabled( BinaryTreeNode* pRootTreeNode, const BinaryWor
 
 BinaryTreeNode * BinaryTreeNode::prepend_tree( const BinaryWord & rootNodePath, BinaryTreeNode * oldRootNode){
     //Create the new binary tree node
-    BinaryTreeNode * pRootBinaryTreeNode = new BinaryTreeNode(), * pCurrentBinaryTreeNode = pRootBinaryTreeNode;
+    std::unique_ptr<BinaryTreeNode> pRootBinaryTreeNode( new BinaryTreeNode() );
+    BinaryTreeNode * pCurrentBinaryTreeNode = pRootBinaryTreeNode.get();
     Nat i = 0;
     //Loop until the last path element, because it has to be treated in a different manner
     for( ; i < ( rootNodePath.size() - 1 ) ; i++ ){
@@ -397,7 +399,7 @@ BinaryTreeNode * BinaryTreeNode::prepend_tree( const BinaryWord & rootNodePath,
         delete pCurrentBinaryTreeNode->_pLeftNode;
         pCurrentBinaryTreeNode->_pLeftNode = oldRootNode;
     }
-    return pRootBinaryTreeNode;
+    return pRootBinaryTreeNode.release();
 }
 
 Bool BinaryTreeNode::intersect( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo ) {
diff --git a/source/geometry/binary_tree.hpp b/source/geometry/binary_tree.hpp
index 0e4deb4..c76c117 100644
--- a/source/geometry/binary_tree.hpp
+++ b/source/geometry/binary_tree.hpp
@@ -29,6 +29,8 @@
 
 #include <iostream>
 #include <iomanip>
+#include <memory>
+#include <utility>
 
 #include "function/functional.hpp"
 #include "utility/macros.hpp"
@@ -297,19 +299,16 @@ inline BinaryTreeNode::BinaryTreeNode(const ValidatedKleenean isEnabled) {
     init( isEnabled, nullptr, nullptr );
 }
 
-inline BinaryTreeNode::BinaryTreeNode(const BinaryTreeNode& theTreeNode) {
+//NOTE: Delegate to the basic constructor, so that the sub-nodes are freed if copying fails
+inline BinaryTreeNode::BinaryTreeNode(const BinaryTreeNode& theTreeNode) : BinaryTreeNode( theTreeNode._isEnabled ) {
+    //NOTE: We do not allow for nodes where one leaf is nullptr and another is not
     if( (theTreeNode._pLeftNode) != nullptr && ( theTreeNode._pRightNode != nullptr ) ) {
-        init( theTreeNode._isEnabled, new BinaryTreeNode( *theTreeNode._pLeftNode ), new BinaryTreeNode( *theTreeNode._pRightNode ) );
-    } else {
-        //NOTE: We do not allow for nodes where one leaf is nullptr and another is not
-        init( theTreeNode._isEnabled, nullptr, nullptr );
+        _pLeftNode = new BinaryTreeNode( *theTreeNode._pLeftNode );
+        _pRightNode = new BinaryTreeNode( *theTreeNode._pRightNode );
     }
 }
 
-inline BinaryTreeNode::BinaryTreeNode( const BooleanArray& theTree, const BooleanArray& theEnabledCells ) {
-    //Make default initialization
-    init( false, nullptr, nullptr ) ;
-
+inline BinaryTreeNode::BinaryTreeNode( const BooleanArray& theTree, const BooleanArray& theEnabledCells ) : BinaryTreeNode( ValidatedKleenean(false) ) {
     //If the tree is not empry and there are enabled leafs then do the thing
     if( ( theTree.size() ) > 0 && ( theEnabledCells.size() > 0 ) ) {
         Nat arr_index = 0, leaf_counter = 0;
@@ -354,13 +353,7 @@ inline BinaryTreeNode * BinaryTreeNode::right_node() const {
 }
 
 inline Void BinaryTreeNode::set(Bool enabled_or_disabled) {
-    _isEnabled = enabled_or_disabled;
-    if( _pLeftNode != nullptr ) {
-        delete _pLeftNode;
-    }
-    if( _pRightNode != nullptr ) {
-        delete _pRightNode;
-    }
+    make_leaf(enabled_or_disabled);
 }
 
 inline Void BinaryTreeNode::set_enabled() {
@@ -373,11 +366,11 @@ inline Void BinaryTreeNode::set_enabled() {
 
 inline Void BinaryTreeNode::copy_from( const BinaryTreeNode * pOtherNode ) {
     if( pOtherNode != nullptr ) {
-        _isEnabled = pOtherNode->_isEnabled;
-        if( _pLeftNode != nullptr) { delete _pLeftNode; _pLeftNode = nullptr; }
-        if( _pRightNode != nullptr) { delete _pRightNode; _pRightNode = nullptr; }
-        if( pOtherNode->_pLeftNode != nullptr ) { _pLeftNode = new BinaryTreeNode( * (pOtherNode->_pLeftNode) ); }
-        if( pOtherNode->_pRightNode != nullptr ) { _pRightNode = new BinaryTreeNode( * (pOtherNode->_pRightNode) ); }
+        //NOTE: Make the copy first, since it may fail, and the other node may be a sub-node of this one
+        BinaryTreeNode theCopy( *pOtherNode );
+        std::swap( _isEnabled, theCopy._isEnabled );
+        std::swap( _pLeftNode, theCopy._pLeftNode );
+        std::swap( _pRightNode, theCopy._pRightNode );
     }
 }
 
@@ -405,8 +398,10 @@ inline Void BinaryTreeNode::make_leaf(ValidatedKleenean is_enabled ) {
 
 inline Void BinaryTreeNode::split() {
     if ( is_leaf() ) {
-        _pLeftNode  = new BinaryTreeNode(_isEnabled);
+        //NOTE: If the second allocation fails, the node must remain a leaf
+        std::unique_ptr<BinaryTreeNode> pLeftNode( new BinaryTreeNode(_isEnabled) );
         _pRightNode = new BinaryTreeNode(_isEnabled);
+        _pLeftNode  = pLeftNode.release();
         set_unknown();
     }
 }
@@ -430,17 +425,7 @@ inline String BinaryTreeNode::node_to_string() const {
 }
 
 inline BinaryTreeNode& BinaryTreeNode::operator=( const BinaryTreeNode & otherNode ) {
-    //Copy the node value
-    _isEnabled = otherNode._isEnabled;
-
-    //Deallocate memory for the children, if any
-    if( _pLeftNode != nullptr ) { delete _pLeftNode; _pLeftNode = nullptr; }
-    if( _pRightNode != nullptr ) { delete _pRightNode; _pRightNode = nullptr; }
-
-    //Copy the children trees from the otherNode
-    if( otherNode._pLeftNode != nullptr ) { _pLeftNode = new BinaryTreeNode( * ( otherNode._pLeftNode ) ); }
-    if( otherNode._pRightNode != nullptr ) { _pRightNode = new BinaryTreeNode( * ( otherNode._pRightNode ) ); }
-
+    copy_from( &otherNode );
     return *this;
 }
 
-- 
2.43.0


From 9133cb78673651139a830c642eaf26f825794dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:00 +0000
Subject: [PATCH 22/26] fix: neither leak nor free twice the tree of a paving
 when an allocation fails

---
 source/geometry/grid_paving.cpp | 107 +++++++++++++++-----------------
 source/geometry/grid_paving.hpp |   6 ++
 2 files changed, 57 insertions(+), 56 deletions(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index dfe910f..ab222f8 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -337,13 +337,12 @@ Bool subset(const GridCell& theCellOne, const GridCell& theCellTwo, BinaryWord *
     ARIADNE_ASSERT( theCellOne.grid() == theCellTwo.grid() );
 
     //Test that the binary words are empty, otherwise the results of computations are undefined
-    Bool isDefault = false;
+    BinaryWord theDefaultPathPrefixOne, theDefaultPathPrefixTwo;
     if( ( pPathPrefixOne == nullptr ) && ( pPathPrefixTwo == nullptr ) ) {
         //If both parameters are null, then the user does not
-        //need this data, so we allocate tepmorary objects
-        pPathPrefixOne = new BinaryWord();
-        pPathPrefixTwo = new BinaryWord();
-        isDefault = true;
+        //need this data, so we use temporary objects
+        pPathPrefixOne = &theDefaultPathPrefixOne;
+        pPathPrefixTwo = &theDefaultPathPrefixTwo;
     } else {
         if( ( pPathPrefixOne == nullptr ) || ( pPathPrefixTwo == nullptr ) ) {
             //TODO: Find some better way to notify the user that
@@ -351,7 +350,7 @@ Bool subset(const GridCell& theCellOne, const GridCell& theCellTwo, BinaryWord *
             ARIADNE_ASSERT( false );
         } else {
             //DO NOTHING: Both parameters are not nullptr, so it
-            //is user data and isDefault should stay false.
+            //is user data.
         }
     }
 
@@ -379,15 +378,7 @@ Bool subset(const GridCell& theCellOne, const GridCell& theCellTwo, BinaryWord *
     pPathPrefixTwo->append( theCellTwo.word() );
 
     //03 theCellOne is a subset of theCellTwo if pathPrefixTwo is a prefix of pathPrefixOne
-    Bool result = pPathPrefixTwo->is_prefix( *pPathPrefixOne );
-
-    //04 If working with default parameters, then release memory
-    if( isDefault ) {
-        delete pPathPrefixOne;
-        delete pPathPrefixTwo;
-    }
-
-    return result;
+    return pPathPrefixTwo->is_prefix( *pPathPrefixOne );
 }
 
 OutputStream& operator<<(OutputStream& os, const GridCell& gridPavingCell){
@@ -1146,8 +1137,9 @@ const BinaryTreeNode * GridTreeSubpaving::binary_tree() const {
 }
 
 GridTreeSubpaving& GridTreeSubpaving::operator=( const GridTreeSubpaving &otherSubset) {
-    _pRootTreeNode = otherSubset._pRootTreeNode;
+    //NOTE: Copying the cell may fail, so the tree should only be changed afterwards
     _theGridCell = otherSubset._theGridCell;
+    _pRootTreeNode = otherSubset._pRootTreeNode;
 
     return *this;
 }
@@ -1714,13 +1706,15 @@ Bool intersect( const GridCell& theCell, const GridTreeSubpaving& theSet ) {
 
     //If the primary cell of the theCell is lower that that of theSet
     //Then we re-root theCell to the primary cell theSet.root_cell().root_extent()
+    std::unique_ptr<const GridCell> pReRootedGridCell;
     const GridCell * pWorkGridCell;
     const Nat theSetsPCellExtent = theSet.root_cell().root_extent();
     if( theSetsPCellExtent > theCell.root_extent() ) {
         //Compute the path from the primary cell of theSet to the primary cell of theCell
         BinaryWord pathFromSetsPCellToCell = GridCell::primary_cell_path( theCell.dimension(), theSetsPCellExtent, theCell.root_extent() );
         pathFromSetsPCellToCell.append( theCell.word() );
-        pWorkGridCell = new GridCell( theCell.grid(), theSetsPCellExtent, pathFromSetsPCellToCell );
+        pReRootedGridCell.reset( new GridCell( theCell.grid(), theSetsPCellExtent, pathFromSetsPCellToCell ) );
+        pWorkGridCell = pReRootedGridCell.get();
     } else {
         pWorkGridCell = &theCell;
     }
@@ -1777,10 +1771,6 @@ Bool intersect( const GridCell& theCell, const GridTreeSubpaving& theSet ) {
         }
     }
 
-    if( theSetsPCellExtent > theCell.root_extent() ) {
-        delete pWorkGridCell;
-    }
-
     return result;
 }
 
@@ -2089,24 +2079,30 @@ Void GridTreePaving::remove( const SubPavingInterface& theOtherSubPaving ) {
 }
 
 
-GridTreePaving::GridTreePaving( ) : GridTreeSubpaving( Grid(), 0, BinaryWord(), new BinaryTreeNode( false ) ){
+//NOTE: The tree is only owned once the cell has been constructed, so hold it in a unique_ptr until then.
+GridTreePaving::GridTreePaving( const Grid& theGrid, const Nat theExtent, const BinaryWord& theWord, std::unique_ptr<BinaryTreeNode> pRootTreeNode ) :
+    GridTreeSubpaving( theGrid, theExtent, theWord, nullptr ){
+    this->_pRootTreeNode = pRootTreeNode.release();
+}
+
+GridTreePaving::GridTreePaving( ) : GridTreePaving( Grid() ){
 }
 
 GridTreePaving::GridTreePaving( const Grid& theGrid, const Bool enable  ) :
-    GridTreeSubpaving( theGrid, 0, BinaryWord(), new BinaryTreeNode( enable ) ){
+    GridTreePaving( theGrid, 0, BinaryWord(), std::make_unique<BinaryTreeNode>( enable ) ){
 }
 
 GridTreePaving::GridTreePaving( const Grid& theGrid, const Nat theExtent, BinaryTreeNode * pRootTreeNode ) :
-    GridTreeSubpaving( theGrid, theExtent, BinaryWord(), pRootTreeNode ){
+    GridTreePaving( theGrid, theExtent, BinaryWord(), std::unique_ptr<BinaryTreeNode>( pRootTreeNode ) ){
 }
 
 GridTreePaving::GridTreePaving( const GridCell& theGridCell  ) :
-    GridTreeSubpaving( theGridCell.grid(), theGridCell.root_extent(), BinaryWord(), new BinaryTreeNode( false ) ){
+    GridTreePaving( theGridCell.grid(), theGridCell.root_extent(), BinaryWord(), std::make_unique<BinaryTreeNode>( false ) ){
     this->adjoin(theGridCell);
 }
 
 GridTreePaving::GridTreePaving( const Nat theDimension, const Bool enable ) :
-    GridTreeSubpaving( Grid( theDimension, FloatDP(1.0_x,dp) ), 0, BinaryWord(), new BinaryTreeNode( enable )) {
+    GridTreePaving( Grid( theDimension, FloatDP(1.0_x,dp) ), enable ) {
     //We want a [0,1]x...[0,1] cell in N dimensional space with no sxaling or shift of coordinates:
     //1. Create a new non scaling grid with no shift of the coordinates
     //2. The extent of the primary cell is zero, since is is [0,1]x...[0,1] itself
@@ -2116,8 +2112,8 @@ GridTreePaving::GridTreePaving( const Nat theDimension, const Bool enable ) :
 }
 
 GridTreePaving::GridTreePaving(const Grid& theGrid, const ExactBoxType & theLatticeBoxType ) :
-    GridTreeSubpaving( theGrid, GridCell::smallest_enclosing_primary_cell_extent( theLatticeBoxType ),
-                    BinaryWord(), new BinaryTreeNode( false ) ) {
+    GridTreePaving( theGrid, GridCell::smallest_enclosing_primary_cell_extent( theLatticeBoxType ),
+                    BinaryWord(), std::make_unique<BinaryTreeNode>( false ) ) {
     //1. The main point here is that we have to compute the smallest primary cell that contains theBoundingBoxType
     //2. This cell is defined by it's extent and becomes the root of the GridTreeSet
     //3. ExactPoint 2. implies that the word to the root of GridTreeSubset should be set to
@@ -2125,26 +2121,27 @@ GridTreePaving::GridTreePaving(const Grid& theGrid, const ExactBoxType & theLatt
 }
 
 GridTreePaving::GridTreePaving( const Grid& theGrid, Nat theExtent, const BooleanArray& theTree, const BooleanArray& theEnabledCells ) :
-    GridTreeSubpaving( theGrid, theExtent, BinaryWord(), new BinaryTreeNode( theTree, theEnabledCells ) ) {
+    GridTreePaving( theGrid, theExtent, BinaryWord(), std::make_unique<BinaryTreeNode>( theTree, theEnabledCells ) ) {
     //Use the super class constructor and the binary tree constructed from the arrays: theTree and theEnabledCells
 }
 
 GridTreePaving::GridTreePaving( const GridTreePaving & theGridTreeSet ) :
-    GridTreeSubpaving( theGridTreeSet._theGridCell.grid(), theGridTreeSet._theGridCell.root_extent(),
-                    theGridTreeSet._theGridCell.word(), new BinaryTreeNode( *theGridTreeSet._pRootTreeNode )) {
-    //Call the super constructor: Create an exact copy of the tree, copy the bounding box
+    GridTreePaving( static_cast<GridTreeSubpaving const&>( theGridTreeSet ) ) {
+}
+
+GridTreePaving::GridTreePaving( const GridTreeSubpaving & theGridTreeSubset ) :
+    GridTreePaving( theGridTreeSubset.root_cell().grid(), theGridTreeSubset.root_cell().root_extent(),
+                    theGridTreeSubset.root_cell().word(), std::make_unique<BinaryTreeNode>( *theGridTreeSubset.binary_tree() )) {
+    //Create an exact copy of the tree, copy the bounding box
 }
 
 GridTreePaving& GridTreePaving::operator=( const GridTreePaving & theGridTreeSet ) {
-    //Delete the old tree and make a new one
+    //Make a copy of the new tree and then delete the old one, so that nothing is lost if copying fails
     if(this!=&theGridTreeSet) {
-        if( GridTreeSubpaving::_pRootTreeNode != nullptr){
-            delete GridTreeSubpaving::_pRootTreeNode;
-            GridTreeSubpaving::_pRootTreeNode = nullptr;
-        }
-        static_cast<GridTreeSubpaving&>(*this) =
-            GridTreeSubpaving( theGridTreeSet._theGridCell.grid(), theGridTreeSet._theGridCell.root_extent(),
-                            theGridTreeSet._theGridCell.word(), new BinaryTreeNode( *theGridTreeSet._pRootTreeNode ));
+        std::unique_ptr<BinaryTreeNode> pNewRootTreeNode( new BinaryTreeNode( *theGridTreeSet._pRootTreeNode ) );
+        this->_theGridCell = theGridTreeSet._theGridCell;
+        delete this->_pRootTreeNode;
+        this->_pRootTreeNode = pNewRootTreeNode.release();
     }
     return *this;
 }
@@ -2167,10 +2164,12 @@ Void GridTreePaving::up_to_primary_cell( const Nat toPCellExtent ){
     //paving's has to be rerooted to another primary cell and then we merge the pavings.
     //1. Compute the path
     BinaryWord primaryCellPath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), toPCellExtent, fromPCellExtent );
-    //2. Substitute the root node of the paiving with the extended tree
+    //2. Compute the GridCell that corresponds to the root of this GridTreeSubset
+    GridCell theNewGridCell( this->_theGridCell.grid(), toPCellExtent, BinaryWord() );
+    //3. Substitute the root node of the paiving with the extended tree
     this->_pRootTreeNode = BinaryTreeNode::prepend_tree( primaryCellPath, this->_pRootTreeNode );
-    //3. Update the GridCell that corresponds to the root of this GridTreeSubset
-    this->_theGridCell = GridCell( this->_theGridCell.grid(), toPCellExtent, BinaryWord() );
+    //4. Update the GridCell that corresponds to the root of this GridTreeSubset
+    this->_theGridCell = std::move( theNewGridCell );
 }
 
 BinaryTreeNode* GridTreePaving::align_with_cell( const Nat otherPavingPCellExtent, const Bool stop_on_enabled,
@@ -2432,11 +2431,10 @@ Void GridTreePaving::adjoin_outer_approximation( const EffectiveEuclideanCompact
         const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, outer_approx_primary_cell_extent, 0 );
 
         //Adjoin the outer approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
+        BinaryWord theEmptyPath;
         _adjoin_outer_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, outer_approx_primary_cell_extent,
-                                     max_mince_tree_depth, theSet, pEmptyPath );
+                                     max_mince_tree_depth, theSet, &theEmptyPath );
 
-        delete pEmptyPath;
     }
 }
 
@@ -2464,11 +2462,10 @@ Void GridTreePaving::adjoin_outer_approximation( const ValidatedEuclideanCompact
         const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, outer_approx_primary_cell_extent, 0 );
 
         //Adjoin the outer approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
+        BinaryWord theEmptyPath;
         _adjoin_outer_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, outer_approx_primary_cell_extent,
-                                     max_mince_tree_depth, theSet, pEmptyPath );
+                                     max_mince_tree_depth, theSet, &theEmptyPath );
 
-        delete pEmptyPath;
     }
 }
 
@@ -2496,17 +2493,16 @@ Void GridTreePaving::adjoin_lower_approximation( const EffectiveEuclideanOvertSe
         const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, heightInDim, 0 );
 
         //Adjoin the outer approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
+        BinaryWord theEmptyPath;
         //const EffectiveEuclideanRegularSetInterface* theRegularVersionOfSet = dynamic_cast<const EffectiveEuclideanRegularSetInterface*>(&theSet);
         const EffectiveEuclideanOpenSetInterface* theOpenVersionOfSet = dynamic_cast<const EffectiveEuclideanOpenSetInterface*>(&theSet);
         //const EffectiveEuclideanLocatedSetInterface* theLocatedVersionOfSet = dynamic_cast<const EffectiveEuclideanLocatedSetInterface*>(&theSet);
         const EffectiveEuclideanOvertSetInterface* theOvertVersionOfSet = dynamic_cast<const EffectiveEuclideanOvertSetInterface*>(&theSet);
         if( theOpenVersionOfSet ) {
-            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOpenVersionOfSet, pEmptyPath );
+            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOpenVersionOfSet, &theEmptyPath );
         } else {
-            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOvertVersionOfSet, pEmptyPath );
+            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOvertVersionOfSet, &theEmptyPath );
         }
-        delete pEmptyPath;
     }
 }
 
@@ -2589,9 +2585,8 @@ Void GridTreePaving::adjoin_inner_approximation( const EffectiveEuclideanOpenSet
         const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, extent, 0 );
 
         //Adjoin the inner approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
-        _adjoin_inner_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, extent, max_mince_tree_depth, theSet, pEmptyPath );
-        delete pEmptyPath;
+        BinaryWord theEmptyPath;
+        _adjoin_inner_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, extent, max_mince_tree_depth, theSet, &theEmptyPath );
     }
 }
 
diff --git a/source/geometry/grid_paving.hpp b/source/geometry/grid_paving.hpp
index b4680da..5e7652c 100644
--- a/source/geometry/grid_paving.hpp
+++ b/source/geometry/grid_paving.hpp
@@ -437,6 +437,9 @@ class GridTreePaving
     //! cell of extent \a otherPavingPCellExtent and set \a has_stopped to true.
     BinaryTreeNode* align_with_cell( const Nat otherPavingPCellExtent, const Bool stop_on_enabled, const Bool stop_on_disabled, Bool & has_stopped );
 
+    //! \brief Construct a paving rooted at a given cell, taking ownership of the tree \a pRootTreeNode.
+    GridTreePaving( const Grid& theGrid, const Nat theExtent, const BinaryWord& theWord, std::unique_ptr<BinaryTreeNode> pRootTreeNode );
+
     //! \brief This method adjoins a cell with root extent \a cellExtent with path \a pCellPath to this paving.
     Void _adjoin_cell( const Nat cellExtent, BinaryWord const& pCellPath );
 
@@ -516,6 +519,9 @@ class GridTreePaving
     //! including the paving tree. I.e. the new copy of the tree is created.
     GridTreePaving( const GridTreePaving & theGridTreeSet );
 
+    //! \brief Construct a copy of a subpaving which owns its tree.
+    explicit GridTreePaving( const GridTreeSubpaving & theGridTreeSubset );
+
     //! A simple constructor that creates the [0, 1]*...*[0, 1] cell in the
     //! \a theDimension - dimensional space. Here we assume that we have a non scaling
     //! grid with no shift of the coordinates. I.e. Grid._data._origin = {0, ..., 0}
-- 
2.43.0


From 7e567e1729f8269cfb7a4e7cbc1da6c3856e9e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:00 +0000
Subject: [PATCH 23/26] fix: GridTreeSubpaving::clone() loses the contents of
 the set

---
 source/geometry/grid_paving.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index ab222f8..7d41563 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -1174,7 +1174,7 @@ Bool GridTreeSubpaving::intersects(const SubPavingInterface& paving) const {
 
 GridTreeSubpaving* GridTreeSubpaving::clone( ) const {
     // Return a GridTreeSet to ensure that memory is copied.
-    return new GridTreePaving(this->grid(),this->_pRootTreeNode);
+    return new GridTreePaving(*this);
 }
 
 
-- 
2.43.0


From d3e2abfc1ae74dcbe4a74b98242fbb1abde3f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:39 +0000
Subject: [PATCH 24/26] fix: out-of-bounds read of the permutation in the
 simplex algorithm

---
 source/solvers/simplex_algorithm.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/solvers/simplex_algorithm.cpp b/source/solvers/simplex_algorithm.cpp
index 33d2249..99e8666 100644
--- a/source/solvers/simplex_algorithm.cpp
+++ b/source/solvers/simplex_algorithm.cpp
@@ -722,11 +722,11 @@ compute_rt(const Vector<X>& xl, const Vector<X>& xu, const Array<Slackness>& vt,
         if( decide(d[k]*ds<-CUTOFF_THRESHOLD && x[j]>=xl[j] && xl[j] != -inf) ) {
             tk=(xl[j]-x[j])/(ds*d[k]);
             //if( r==n || tk<t || (tk==t && p[k]<p[r]) ) { t=tk; r=k; }
-            if( decide(tk<t || (tk==t && p[k]<p[r])) ) { t=tk; r=k; }
+            if( decide(tk<t || (tk==t && (r!=n && p[k]<p[r]))) ) { t=tk; r=k; }
         } else if( decide(d[k]*ds>CUTOFF_THRESHOLD && x[j]<=xu[j] && xu[j] != inf) ) {
             tk=(xu[j]-x[j])/(ds*d[k]);
             //if( r==n || tk<t || (tk==t && p[k]<p[r])) { t=tk; r=k; }
-            if( decide(tk<t || (tk==t && p[k]<p[r])) ) { t=tk; r=k; }
+            if( decide(tk<t || (tk==t && (r!=n && p[k]<p[r]))) ) { t=tk; r=k; }
         } else {
             tk=inf;
         }
@@ -769,11 +769,11 @@ compute_rt(const Vector<FloatDP>& xl, const Vector<FloatDP>& xu, const Array<Sla
         if( definitely(d[k]*ds<0) && definitely(x[j]>=xl[j]) && xl[j] != -inf) {
             tk=(xl[j]-x[j])/(ds*d[k]);
             //if( r==n || tk<t || (tk==t && p[k]<p[r]) ) { t=tk; r=k; }
-            if( definitely(tk<t) || definitely(tk==t && p[k]<p[r]) ) { t=tk; r=k; }
+            if( definitely(tk<t) || definitely(tk==t && (r!=n && p[k]<p[r])) ) { t=tk; r=k; }
         } else if( definitely(d[k]*ds>0) && definitely(x[j]<=xu[j]) && xu[j] != inf ) {
             tk=(xu[j]-x[j])/(ds*d[k]);
             //if( r==n || tk<t || (tk==t && p[k]<p[r])) { t=tk; r=k; }
-            if( definitely(tk<t) || definitely(tk==t && p[k]<p[r])) { t=tk; r=k; }
+            if( definitely(tk<t) || definitely(tk==t && (r!=n && p[k]<p[r]))) { t=tk; r=k; }
         } else {
             tk=XX(inf,pr);
         }
-- 
2.43.0


From e17edabc53a01fec59f0dcc810a833468c5fc71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:40 +0000
Subject: [PATCH 25/26] fix: ValidatedConstrainedImageSet::is_empty() const
 modifies a set which may be shared between threads

---
 source/geometry/function_set.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/geometry/function_set.cpp b/source/geometry/function_set.cpp
index fa782c7..6e58dbe 100644
--- a/source/geometry/function_set.cpp
+++ b/source/geometry/function_set.cpp
@@ -1017,8 +1017,10 @@ ValidatedConstrainedImageSet::reduce()
 
 ValidatedKleenean ValidatedConstrainedImageSet::is_empty() const
 {
-    const_cast<ValidatedConstrainedImageSet*>(this)->reduce();
-    return this->_reduced_domain.is_empty();
+    // Work on a copy, since the set may be used by other threads
+    ValidatedConstrainedImageSet copy(*this);
+    copy.reduce();
+    return copy._reduced_domain.is_empty();
 }
 
 ValidatedLowerKleenean ValidatedConstrainedImageSet::inside(const ExactBoxType& bx) const
-- 
2.43.0


From e78c10ac3679a1d7b4c629e3d5c86f7a959a314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:29 +0000
Subject: [PATCH 26/26] fix: keep the numbers of indices and coefficients of an
 expansion equal when an allocation fails

---
 source/algebra/expansion.tpl.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/source/algebra/expansion.tpl.hpp b/source/algebra/expansion.tpl.hpp
index f105d0c..8aaff86 100644
--- a/source/algebra/expansion.tpl.hpp
+++ b/source/algebra/expansion.tpl.hpp
@@ -121,12 +121,9 @@ template<class I, class X> Expansion<I,X>::Expansion(const Expansion<I,X>& e)
 template<class I, class X> Expansion<I,X>& Expansion<I,X>::operator=(const Expansion<I,X>& e)
 {
     if(this!=&e) {
-        // Perform memory reallocation if necessary
-        this->_indices = e._indices;
-        this->_coefficients = e._coefficients;
-        this->_zero_coefficient=e._zero_coefficient;
-        this->_indices.reserve(e.capacity());
-        this->_coefficients.reserve(e.capacity());
+        // Copy first, so that the numbers of indices and of coefficients stay equal if copying fails
+        Expansion<I,X> r(e);
+        this->swap(r);
     }
     return *this;
 }
@@ -367,16 +364,18 @@ template<class I, class X> Void Expansion<I,X>::append(const I& a, const X& c) {
     if(this->number_of_terms()==this->capacity()) {
         this->reserve(2*this->capacity());
     }
-    this->_indices.append(a);
+    // Append the coefficient first, since copying it may fail, but there is space for the index
     this->_coefficients.append(c);
+    this->_indices.append(a);
 }
 
 template<class I, class X> Void Expansion<I,X>::append_sum(const I& a1, const I& a2, const X& c) {
     if(this->number_of_terms()==this->capacity()) {
         this->reserve(2*this->capacity());
     }
-    this->_indices.append(a1+a2);
+    I a(a1+a2);
     this->_coefficients.append(c);
+    this->_indices.append(a);
 }
 
 
-- 
2.43.0

