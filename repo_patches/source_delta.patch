From e9994310b11766f87ba8adcce36e019e0557158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 01/54] fix: Vector::rbegin() and rend() did not compile and
 were off by one

---
 vmmlib/vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 4adc2de..f33d7d9 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1574,7 +1574,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::reverse_iterator
 Vector< M, T >::rbegin()
 {
-    return array + M - 1;
+    return reverse_iterator( end( ));
 }
 
 
@@ -1582,7 +1582,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::reverse_iterator
 Vector< M, T >::rend()
 {
-    return array - 1;
+    return reverse_iterator( begin( ));
 }
 
 
@@ -1590,7 +1590,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::const_reverse_iterator
 Vector< M, T >::rbegin() const
 {
-    return array + M - 1;
+    return const_reverse_iterator( end( ));
 }
 
 
@@ -1598,7 +1598,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::const_reverse_iterator
 Vector< M, T >::rend() const
 {
-    return array - 1;
+    return const_reverse_iterator( begin( ));
 }
 
 
-- 
2.43.0


From 26ce71ac59cc98445f8569dd552db8f2b78933a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 02/54] fix: Vector::operator== compared bytes, so that -0.0
 and 0.0 differed

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index f33d7d9..a4fdd7a 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1308,7 +1308,7 @@ Vector< M, T >::project_point_onto_plane( const Vector< 3, TT >& point,
 template< size_t M, typename T >
 bool Vector< M, T >::operator==( const Vector< M, T >& other ) const
 {
-    return memcmp( array, other.array, sizeof( array )) == 0;
+    return std::equal( begin(), end(), other.begin( ));
 }
 
 
-- 
2.43.0


From ceb1f6388a6cbb2cc5484912ccd5ed566ca546bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 03/54] fix: Vector::find_abs_max_index() returned the index of
 the minimum

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index a4fdd7a..2f31ac2 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1497,7 +1497,7 @@ template< size_t M, typename T >
 size_t
 Vector< M, T >::find_abs_max_index() const
 {
-    return std::max_element( begin(), end(), vmml::math::abs_greater< T >() ) - begin();
+    return std::max_element( begin(), end(), vmml::math::abs_less< T >() ) - begin();
 }
 
 
-- 
2.43.0


From 0198a45949a9023735613852eb3ed3425fae261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 04/54] fix: Vector::scale_to() mapped ranges not centered at 0
 wrongly

---
 vmmlib/vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 2f31ac2..ddbbef5 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1444,13 +1444,12 @@ Vector< M, T >::scale_to( Vector< M, TT >& result_,
     T min_value, T max_value ) const
 {
     T range       = max_value-min_value;
-    T half_range  = range * 0.5;
     T scale       = ( 1.0 / range ) * static_cast< T >( std::numeric_limits< TT >::max() );
 
     for( size_t index = 0; index < M; ++index )
     {
         result_.at( index )
-            = static_cast< TT >( ( at( index ) + half_range ) * scale );
+            = static_cast< TT >( ( at( index ) - min_value ) * scale );
     }
 
 }
-- 
2.43.0


From 2009e0497bdfa03a85e3ffef5fec43bdc295a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 05/54] fix: compute_plane() did not normalize the normal of
 the plane

---
 vmmlib/vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index ddbbef5..e58a9fe 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -484,8 +484,9 @@ inline Vector< 4, T > compute_plane( const Vector< 3, T >& a,
     const Vector< 3, T > cb = b - c;
     const Vector< 3, T > ba = a - b;
 
-    Vector< 4, T > plane = cb.cross( ba );
-    plane.normalize();
+    Vector< 3, T > normal = cb.cross( ba );
+    normal.normalize();
+    Vector< 4, T > plane( normal, 0 );
     plane.w() = -plane.x() * a.x() - plane.y() * a.y() - plane.z() * a.z();
     return plane;
 }
-- 
2.43.0


From 8db7969aa4611b068b150c53958fd4653af8f592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 06/54] fix: Matrix::rbegin() and rend() did not compile and
 were off by one

---
 vmmlib/matrix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 99c3069..3668892 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2182,7 +2182,7 @@ typename Matrix< M, N, T >::reverse_iterator
 Matrix< M, N, T >::
 rbegin()
 {
-    return array + size() - 1;
+    return reverse_iterator( end( ));
 }
 
 
@@ -2192,7 +2192,7 @@ typename Matrix< M, N, T >::reverse_iterator
 Matrix< M, N, T >::
 rend()
 {
-    return array - 1;
+    return reverse_iterator( begin( ));
 }
 
 
@@ -2202,7 +2202,7 @@ typename Matrix< M, N, T >::const_reverse_iterator
 Matrix< M, N, T >::
 rbegin() const
 {
-    return array + size() - 1;
+    return const_reverse_iterator( end( ));
 }
 
 
@@ -2212,7 +2212,7 @@ typename Matrix< M, N, T >::const_reverse_iterator
 Matrix< M, N, T >::
 rend() const
 {
-    return array - 1;
+    return const_reverse_iterator( begin( ));
 }
 
 
-- 
2.43.0


From a2282ba1e7eebfe8a9fff8fe152fd53ef3bb5061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 07/54] fix: Matrix::set() ignored the end of the range for
 column-major input

---
 vmmlib/matrix.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 3668892..e3839bb 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1504,7 +1504,11 @@ void Matrix< M, N, T >::set( input_iterator_t begin_,
     }
     else
     {
-        std::copy( it, it + ( M * N ), begin() );
+        for( iterator element = begin(); element != end() && it != end_;
+             ++element, ++it )
+        {
+            *element = static_cast< T >( *it );
+        }
     }
 }
 
-- 
2.43.0


From d9c1e1a3121f268f659fcd48a4151e5220fbd526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 08/54] fix: Matrix::operator[] accepted a row index of M

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index e3839bb..50a11df 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -439,7 +439,7 @@ public:
     inline row_accessor operator[]( size_t row_index )
     {
         #ifdef VMMLIB_SAFE_ACCESSORS
-        if ( row_index > M )
+        if ( row_index >= M )
             VMMLIB_ERROR( "row index out of bounds", VMMLIB_HERE );
         #endif
         return row_accessor( array + row_index );
-- 
2.43.0


From dbcbdf2b9eb134104a621be44eba44f6b48bc2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 09/54] fix: Matrix::negate() and unary minus ignored the
 matrix

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 50a11df..01cfec2 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1217,7 +1217,7 @@ template< size_t M, size_t N, typename T >
 Matrix< M, N, T >
 Matrix< M, N, T >::negate() const
 {
-    Matrix< M, N, T > result;
+    Matrix< M, N, T > result( *this );
     result *= -1.0;
     return result;
 }
-- 
2.43.0


From f0f3ec78fc4babd48bcc1e49e7821af72cda1a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 10/54] fix: the free multiply() was ambiguous for square
 matrices

The overload for equally sized matrices is usable only for square ones, where
it is ambiguous with the overload for conformable matrices.
---
 vmmlib/matrix.hpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 01cfec2..41e2f09 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -513,16 +513,6 @@ bool equals( const Matrix< M, N, T >& m0, const Matrix< M, N, T >& m1,
 }
 
 
-template< size_t M, size_t N, typename T >
-inline void multiply( const Matrix< M, N, T >& left,
-                      const Matrix< M, N, T >& right,
-                      Matrix< M, N, T >& result )
-{
-    result.multiply( left, right );
-}
-
-
-
 template< size_t M, size_t N, typename T >
 template< size_t U, size_t V >
 void Matrix< M, N, T>::convolve(const Matrix< U, V, T >& kernel)
-- 
2.43.0


From 6ad4804e1865259682913211b40e86701ec3081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 11/54] fix: m *= m read the right operand while overwriting it

---
 vmmlib/matrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 41e2f09..3ec3b8d 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1072,8 +1072,9 @@ template< size_t O, size_t P, typename TT >
 typename enable_if< M == N && O == P && M == O, TT >::type*
 Matrix< M, N, T >::operator*=( const Matrix< O, P, TT >& right )
 {
-    Matrix< M, N, T > copy( *this );
-    multiply( copy, right );
+    const Matrix< M, N, T > left( *this );
+    const Matrix< O, P, TT > right_( right ); // might be *this
+    multiply( left, right_ );
     return 0;
 }
 
-- 
2.43.0


From 2b800f6cb5c55b44338fbe9e7ae29c9f710e742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 12/54] fix: the 2x2 inverse accepted a determinant equal to
 the tolerance

With a tolerance of 0 a singular matrix was reported as inverted, unlike 3x3 and
4x4.
---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 3ec3b8d..09f57ba 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -657,7 +657,7 @@ bool compute_inverse( const Matrix< 2, 2, T >& m_, Matrix< 2, 2, T >& inverse_,
                       T tolerance_ = std::numeric_limits<T>::epsilon())
 {
     const T det_ = compute_determinant( m_ );
-    if( fabs( det_ ) < tolerance_ )
+    if( fabs( det_ ) <= tolerance_ )
         return false;
 
     const T detinv = static_cast< T >( 1.0 ) / det_;
-- 
2.43.0


From f44f41e1508be282a97ab4e3b487ee6974c034b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 13/54] fix: Matrix::tensor() read outside its operands if the
 matrix is not square

The element (row, col) is u[ col ] * v[ row ].
---
 vmmlib/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 09f57ba..e1a56e2 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -165,7 +165,7 @@ public:
     Matrix< M, N, T > negate() const;
 
     // compute tensor product: (this) = vector (X) vector
-    void tensor( const Vector< M, T >& u, const Vector< N, T >& v );
+    void tensor( const Vector< N, T >& u, const Vector< M, T >& v );
     // tensor, for api compatibility with old vmmlib version.
     // WARNING: for M = N = 4 only.
     template< size_t uM, size_t vM >
@@ -1217,7 +1217,7 @@ Matrix< M, N, T >::negate() const
 
 template< size_t M, size_t N, typename T >
 void
-Matrix< M, N, T >::tensor( const Vector< M, T >& u, const Vector< N, T >& v )
+Matrix< M, N, T >::tensor( const Vector< N, T >& u, const Vector< M, T >& v )
 {
     for ( size_t col_index = 0; col_index < N; ++col_index )
         for ( size_t row_index = 0; row_index < M; ++row_index )
-- 
2.43.0


From 8a735342b99fdf5394a34ab48bf2060b090fd5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 14/54] fix: Matrix::get_max() returned 0 if all elements are
 negative

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index e1a56e2..5c299e5 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2348,7 +2348,7 @@ template< size_t M, size_t N, typename T  >
 T
 Matrix< M, N, T >::get_max() const
 {
-    T max_value = static_cast<T>(0);
+    T max_value = array[ 0 ];
 
     const_iterator  it = begin(),
     it_end = end();
-- 
2.43.0


From 01a23bca4b45abafed4920f6b2451049f5c2c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 15/54] fix: Matrix::p_norm() ignored that the norm sums
 absolute values

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 5c299e5..5e92bcc 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2263,7 +2263,7 @@ Matrix< M, N, T >::p_norm( double p ) const
     const_iterator it = begin(), it_end = end();
     for( ; it != it_end; ++it )
     {
-        norm += std::pow(*it, p);
+        norm += std::pow(std::abs(static_cast<double>(*it)), p);
     }
 
     return std::pow(norm,1./p);
-- 
2.43.0


From b74dfb7a6e2c61bc5828422b661458b03cc6ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 16/54] fix: Matrix::convolve() mixed up rows and columns

It accessed elements outside of matrices and kernels that are not square.
---
 vmmlib/matrix.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 5e92bcc..449360a 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -519,27 +519,27 @@ void Matrix< M, N, T>::convolve(const Matrix< U, V, T >& kernel)
 {
     Matrix< M, N, T> temp;  // do not override original values instantly as old values are needed for calculation
 
-    for(size_t y_ = 0; y_ < N; ++y_)
+    for(size_t y_ = 0; y_ < M; ++y_)
     {
-        for(size_t x_ = 0; x_ < M; ++x_)
+        for(size_t x_ = 0; x_ < N; ++x_)
         {
             double sum = 0.0;
 
-            for(size_t j = 0; j < V; ++j)
+            for(size_t j = 0; j < U; ++j)
             {
-                int srcy = y_ - V/2 + j;
+                int srcy = y_ - U/2 + j;
 
                 // Extending border values
                 if(srcy < 0)       srcy = 0;
-                if(srcy >= int(N)) srcy = N-1;
+                if(srcy >= int(M)) srcy = M-1;
 
-                for(size_t i = 0; i < U; ++i)
+                for(size_t i = 0; i < V; ++i)
                 {
-                    int srcx = x_ - U/2 + i;
+                    int srcx = x_ - V/2 + i;
 
                     // Extending border values
                     if(srcx < 0)       srcx = 0;
-                    if(srcx >= int(M)) srcx = M-1;
+                    if(srcx >= int(N)) srcx = N-1;
 
                     sum += kernel.at(j,i) * at(srcy,srcx);
                 }
-- 
2.43.0


From b80d953ba2e7a0f70f25cea375da647304b29ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 17/54] fix: quantization to signed types assumed a value range
 centered at 0

Other ranges were cut off at the limits of the quantized type.
---
 vmmlib/matrix.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 449360a..c805620 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2459,6 +2459,7 @@ Matrix< M, N, T >::quantize_to( Matrix< M, N, TT >& quantized_, const T& min_val
     long tt_range = (max_tt_range - min_tt_range);
 
     T t_range = max_value - min_value;
+    T center = ( min_value + max_value ) / 2;
 
     typedef Matrix< M, N, TT > m_tt_type ;
     typedef typename m_tt_type::iterator tt_iterator;
@@ -2468,7 +2469,7 @@ Matrix< M, N, T >::quantize_to( Matrix< M, N, TT >& quantized_, const T& min_val
     for( ; it != it_end; ++it, ++it_quant )
     {
         if (std::numeric_limits<TT>::is_signed ) {
-            *it_quant = TT( std::min( std::max( min_tt_range, long(( *it * tt_range / t_range ) + 0.5)), max_tt_range ));
+            *it_quant = TT( std::min( std::max( min_tt_range, long((( *it - center ) * tt_range / t_range ) + 0.5)), max_tt_range ));
         } else {
             *it_quant = TT( std::min( std::max( min_tt_range, long(((*it - min_value) * tt_range / t_range) + 0.5)), max_tt_range ));
         }
@@ -2498,6 +2499,7 @@ Matrix< M, N, T >::dequantize( Matrix< M, N, TT >& dequantized_, const TT& min_v
     long t_range = (max_t_range - min_t_range);
 
     TT tt_range = max_value - min_value;
+    TT center = ( min_value + max_value ) / 2;
 
     typedef Matrix< M, N, TT > m_tt_type ;
     typedef typename m_tt_type::iterator tt_iterator;
@@ -2506,7 +2508,7 @@ Matrix< M, N, T >::dequantize( Matrix< M, N, TT >& dequantized_, const TT& min_v
     for( ; it != it_end; ++it, ++it_dequant )
     {
         if (std::numeric_limits<T>::is_signed ) {
-            *it_dequant = std::min( std::max( min_value, TT((TT(*it) / t_range) * tt_range)), max_value );
+            *it_dequant = std::min( std::max( min_value, TT(((TT(*it) / t_range) * tt_range ) + center)), max_value );
         } else {
             *it_dequant = std::min( std::max( min_value, TT((((TT(*it) / t_range)) * tt_range ) + min_value)), max_value );
         }
-- 
2.43.0


From 2ca559021b191ffd257562c01f2fb8824eb4f55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 18/54] fix: is_positive_definite() accepted indefinite
 matrices

The default limit was -1e12, not -1e-12. It did not compile for matrices smaller
than 3x3.
---
 vmmlib/matrix.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index c805620..82fa7b2 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -784,7 +784,7 @@ transpose( const Matrix< M, N, T >& Matrix_ )
 
 template< size_t M, size_t N, typename T >
 bool is_positive_definite( const Matrix< M, N, T >& matrix_,
-    const T limit = -1e12,
+    const T limit = -1e-12,
     typename enable_if< M == N && M <= 3 >::type* = 0 )
 {
     if ( matrix_.at( 0, 0 ) < limit )
@@ -793,16 +793,14 @@ bool is_positive_definite( const Matrix< M, N, T >& matrix_,
     // sylvester criterion
     if ( M > 1 )
     {
-        Matrix< 2, 2, T > m;
-        matrix_.get_sub_matrix( m, 0, 0 );
+        const Matrix< 2, 2, T > m( matrix_ ); // upper left block
         if ( compute_determinant( m ) < limit )
             return false;
     }
 
     if ( M > 2 )
     {
-        Matrix< 3, 3, T > m;
-        matrix_.get_sub_matrix( m, 0, 0 );
+        const Matrix< 3, 3, T > m( matrix_ );
         if ( compute_determinant( m ) < limit )
             return false;
     }
-- 
2.43.0


From 1cfdd0fd69c8dfabcab95b32b2549427840d91b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 19/54] fix: Quaternion::set( begin, end ) did not compile

---
 vmmlib/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 9f04892..ae63639 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -392,7 +392,7 @@ template < typename T >
 template< typename input_iterator_t >
 void Quaternion< T >::set( input_iterator_t begin_, input_iterator_t end_ )
 {
-    super::template set< input_iterator_t >( begin_, end_ );
+    super::template iter_set< input_iterator_t >( begin_, end_ );
 }
 
 
-- 
2.43.0


From 0b8c1f384455a6f9aa3e6fc659ff99f79ae39f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 20/54] fix: Quaternion::negate() was declared but not defined

---
 vmmlib/quaternion.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index ae63639..e6d8acc 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -625,13 +625,22 @@ void Quaternion< T >::operator*=( const Quaternion< T >& q )
 
 template < typename T >
 Quaternion< T >
-Quaternion< T >::operator-() const
+Quaternion< T >::negate() const
 {
     return Quaternion( -x(), -y(), -z(), -w() );
 }
 
 
 
+template < typename T >
+Quaternion< T >
+Quaternion< T >::operator-() const
+{
+    return negate();
+}
+
+
+
 template < typename T >
 void Quaternion< T >::operator+=( const Quaternion< T >& q )
 {
-- 
2.43.0


From e16788ac4c33841b071ee7b0885ee875c32c5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 21/54] fix: quaternion/vector operators mixed up the
 components

The operators - and * passed w first, and += added the z component to y.
---
 vmmlib/quaternion.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index e6d8acc..4d80fe3 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -728,7 +728,7 @@ template < typename T >
 Quaternion< T >
 Quaternion< T >::operator-( const Vector< 3, T >& a ) const
 {
-    return Quaternion( w(), x() - a.x(), y() - a.y(), z() - a.z() );
+    return Quaternion( x() - a.x(), y() - a.y(), z() - a.z(), w() );
 }
 
 
@@ -737,10 +737,10 @@ template < typename T >
 Quaternion< T >
 Quaternion< T >::operator*( const Vector< 3, T >& a ) const
 {
-    return Quaternion( -x() * a.x() - y() * a.y() - z() * a.z(),
-                        w() * a.x() + y() * a.z() - z() * a.y(),
+    return Quaternion(  w() * a.x() + y() * a.z() - z() * a.y(),
                         w() * a.y() + z() * a.x() - x() * a.z(),
-                        w() * a.z() + x() * a.y() - y() * a.x()  );
+                        w() * a.z() + x() * a.y() - y() * a.x(),
+                       -x() * a.x() - y() * a.y() - z() * a.z() );
 }
 
 
@@ -750,7 +750,7 @@ void Quaternion< T >::operator+=( const Vector< 3, T >& xyz )
 {
     x() += xyz.x();
     y() += xyz.y();
-    y() += xyz.z();
+    z() += xyz.z();
 }
 
 
-- 
2.43.0


From 78d1f5b4f7e5a765c572d7125c18d5b1637053b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 22/54] fix: sign of w of quaternions set from matrices that
 rotate by about half a turn

---
 vmmlib/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 4d80fe3..80569e4 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -308,7 +308,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
             z() = M( 0,2 ) + M( 2,0 );
             z() *= s;
 
-            w() = M( 1,2 ) - M( 2,1 );
+            w() = M( 2,1 ) - M( 1,2 );
             w() *= s;
         }
         else if ( largest == 1 )
@@ -337,7 +337,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
 
             z() = 0.25 / s;
 
-            w() = M( 0,1 ) - M( 1,0 );
+            w() = M( 1,0 ) - M( 0,1 );
             w() *= s;
         }
         else
-- 
2.43.0


From 48e34f9c8d24e9537faca5ca5de56584e9a39139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 23/54] fix: Quaternion::rotate() and rotate_x(), _y(), _z()
 did not compile

---
 vmmlib/quaternion.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 80569e4..816a88d 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -852,8 +852,9 @@ Quaternion< T > Quaternion< T >::rotate( T theta, Vector< 3, T >& axis,
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) * axis.normalize() );
-    return q * p * q.invert();
+    Quaternion< T > q( vmml::normalize( axis ) * std::sin( alpha ),
+                       std::cos( alpha ));
+    return q * p * q.inverse();
 }
 
 
@@ -863,8 +864,9 @@ Quaternion< T > Quaternion< T >::rotate_x( T theta, const Vector< 3, T >& a )
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) *  QUATERI );
-    return q * p * q.invert();
+    Quaternion< T > q = QUATERI * std::sin( alpha );
+    q.w() = std::cos( alpha );
+    return q * p * q.inverse();
 }
 
 
@@ -874,8 +876,9 @@ Quaternion< T > Quaternion< T >::rotate_y( T theta, const Vector< 3, T >& a )
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) *  QUATERJ );
-    return q * p * q.invert();
+    Quaternion< T > q = QUATERJ * std::sin( alpha );
+    q.w() = std::cos( alpha );
+    return q * p * q.inverse();
 }
 
 
@@ -885,8 +888,9 @@ Quaternion< T > Quaternion< T >::rotate_z( T theta, const Vector< 3, T >& a )
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) *  QUATERK );
-    return q * p * q.invert();
+    Quaternion< T > q = QUATERK * std::sin( alpha );
+    q.w() = std::cos( alpha );
+    return q * p * q.inverse();
 }
 
 
-- 
2.43.0


From 87e1fac654d37a35994334d107f005c21c53ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 24/54] fix: Frustum::set_perspective ignored the near plane

The documented behaviour is that of gluPerspective: the top of the near
rectangle is near * tan( fov / 2 ), not half the tangent.
---
 vmmlib/frustum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 76088dc..4bf7447 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -251,7 +251,7 @@ Frustum<T>::set_perspective( T fov_y, T aspect_ratio, T near_plane_,
     near_plane() = near_plane_;
     far_plane()   = far_plane_;
 
-    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * 0.5;
+    top()       = near_plane() * tan( 0.5 * fov_y * M_PI / 180.0 );
     bottom()    = - top();
 
     left()      = bottom() * aspect_ratio;
-- 
2.43.0


From 31df8696d677e57095f7760b6ee1d3e455c58cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 25/54] fix: AABB construction from, and containment of, a
 sphere did not compile

Vector has no getCenter()/getRadius(): a sphere is (center xyz, radius w).
---
 vmmlib/aabb.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index bfab1f5..5db36e0 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -137,9 +137,9 @@ AABB< T >::AABB( const Vector< 3, T >& pMin,
 template< typename T >
 AABB< T >::AABB( const Vector< 4, T >& sphere )
 {
-    _max = _min = sphere.getCenter();
-    _max += sphere.getRadius();
-    _min -= sphere.getRadius();
+    _max = _min = sphere.template get_sub_vector< 3 >( 0 );
+    _max += sphere.w();
+    _min -= sphere.w();
 }
 
 template< typename T >
@@ -153,11 +153,11 @@ AABB< T >::AABB( T cx, T cy, T cz, T size )
 template< typename T >
 inline bool AABB< T >::isIn( const Vector< 4, T >& sphere )
 {
-    Vector< 3, T > sv ( sphere.getCenter() );
-    sv += sphere.getRadius();
+    Vector< 3, T > sv ( sphere.template get_sub_vector< 3 >( 0 ));
+    sv += sphere.w();
     if ( sv.x() > _max.x() || sv.y() > _max.y() || sv.z() > _max.z() )
         return false;
-    sv -= sphere.getRadius() * 2.0f;
+    sv -= sphere.w() * 2;
     if ( sv.x() < _min.x() || sv.y() < _min.y() || sv.z() < _min.z() )
         return false;
     return true;
-- 
2.43.0


From 9c8b47a7b0548770320f489e19c8b5a72ed40428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 26/54] fix: AABB::isEmpty compared the z minimum with the x
 maximum

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index 5db36e0..d76d773 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -371,7 +371,7 @@ void AABB< T >::setEmpty()
 template< typename T > inline bool AABB< T >::isEmpty() const
 {
     return ( _min.x() >=  _max.x() || _min.y() >=  _max.y() ||
-             _min.z() >=  _max.x( ));
+             _min.z() >=  _max.z( ));
 }
 
 template< typename T >
-- 
2.43.0


From 1c5ab0b013e7f7dfe8ab0d56e3d01aa74e4e6fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 27/54] fix: AABB::setEmpty left integer boxes without a lowest
 maximum

For unsigned types -max() is 1, so points merged later kept a maximum of at
least 1; for signed types the smallest value could not be merged.
---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index d76d773..329df45 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -364,7 +364,7 @@ template< typename T >inline
 void AABB< T >::setEmpty()
 {
     _min = std::numeric_limits< T >::max();
-    _max = -std::numeric_limits< T >::max();
+    _max = std::numeric_limits< T >::lowest();
 }
 
 
-- 
2.43.0


From 904a598ef97e4761c639ed8647fb9a4b0df7b45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 28/54] fix: AABB::getCenter returned the minimum corner for
 integer boxes

The factor 0.5 was converted to the component type, that is to 0.
---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index 329df45..f6c7973 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -312,7 +312,7 @@ AABB< T >::operator!=( const AABB< U >& other )
 template< typename T >
 Vector< 3, T > AABB< T >::getCenter() const
 {
-    return _min + ( ( _max - _min ) * 0.5f );
+    return _min + ( ( _max - _min ) / static_cast< T >( 2 ));
 }
 
 template< typename T >
-- 
2.43.0


From f1e56a251685a9ae4306226620de060846b3d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 29/54] fix: QR decomposition was not the stabilized
 Gram-Schmidt it documents

The coefficients came from the original column (classical Gram-Schmidt), so
Q loses orthogonality with the square of the condition number.
---
 vmmlib/qr_decomposition.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/qr_decomposition.hpp b/vmmlib/qr_decomposition.hpp
index 29ca94d..042bdcf 100644
--- a/vmmlib/qr_decomposition.hpp
+++ b/vmmlib/qr_decomposition.hpp
@@ -101,9 +101,9 @@ void qr_decompose_gram_schmidt(
         for( unsigned i = 0; i < j; ++i )
         {
             Q.get_column( i, q_column );
-            A.get_column( j, a_column );
 
-            R( i, j ) = dot( q_column, a_column );
+            // stabilized: project what is left of the column, not the column
+            R( i, j ) = dot( q_column, v );
             v -= q_column * R(i,j);
         }
         R(j,j) = v.length();
-- 
2.43.0


From 98a2cf4cf190f0b255ca140b3ce364af21c0668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 30/54] fix: lowpass_filter.hpp did not compile on its own with
 clang

size_t was used without its header.
---
 vmmlib/lowpass_filter.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vmmlib/lowpass_filter.hpp b/vmmlib/lowpass_filter.hpp
index 59b083b..43a241f 100644
--- a/vmmlib/lowpass_filter.hpp
+++ b/vmmlib/lowpass_filter.hpp
@@ -41,6 +41,7 @@
 
 #include <vmmlib/vmmlib_config.hpp>
 
+#include <cstddef>
 #include <deque>
 
 namespace vmml
-- 
2.43.0


From 9e414f532e5e5a529477802a923092faa7e48df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 31/54] fix: stream round trip of 8 bit vectors and matrices

The components were written and read as characters, so values that are white
space characters (9-13, 32) were lost and the rest shifted.
---
 vmmlib/matrix.hpp | 7 +++++--
 vmmlib/vector.hpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 82fa7b2..814f718 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2744,7 +2744,10 @@ Matrix< M, N, T >::read_from_stream( std::istream& is )
     {
         for( size_t col_index = 0; col_index < N; ++col_index )
         {
-            is >> at( row_index, col_index );
+            // promoted, so that 8 bit elements are numbers, not letters
+            decltype( +T( )) value;
+            if( is >> value )
+                at( row_index, col_index ) = static_cast< T >( value );
         }
     }
 }
@@ -2757,7 +2760,7 @@ Matrix< M, N, T >::write_to_stream( std::ostream& os ) const
      {
          for( size_t col_index = 0; col_index < N; ++col_index )
          {
-             os << at( row_index, col_index ) << " ";
+             os << +at( row_index, col_index ) << " ";
          }
      }
 }
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index e58a9fe..b417196 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1720,7 +1720,10 @@ Vector< M, T >::read_from_stream( std::istream& is )
 {
     for( size_t i = 0; i < M; ++i )
     {
-        is >> at( i );
+        // promoted, so that 8 bit components are numbers, not letters
+        decltype( +T( )) value;
+        if( is >> value )
+            at( i ) = static_cast< T >( value );
     }
 }
 
@@ -1730,7 +1733,7 @@ Vector< M, T >::write_to_stream( std::ostream& os ) const
 {
     for( size_t i = 0; i < M; ++i )
     {
-         os << at( i ) << " ";
+         os << +at( i ) << " ";
     }
 }
 
-- 
2.43.0


From 442dc10aae6632d46fe682036e8b4c8e999d07da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 32/54] fix: printing left the stream with changed adjustment
 flags

The saved flags were added with setf() instead of being restored with flags(),
so a stream set to left adjustment was no longer left-adjusted after a vector,
matrix or frustum had been printed.
---
 vmmlib/frustum.hpp | 2 +-
 vmmlib/matrix.hpp  | 2 +-
 vmmlib/vector.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 4bf7447..7c66080 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -116,7 +116,7 @@ public:
            << std::setw(10) << f.near_plane()   << " "
            << std::setw(10) << f.far_plane()    << "]";
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     };
 
diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 814f718..eeb4697 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -470,7 +470,7 @@ public:
             os << "|" << std::endl;
         }
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     };
 
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index b417196..b7e7173 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -348,7 +348,7 @@ public:
             os << std::setw(10) << vector_.at( index ) << " ";
         os << "]";
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     }
 
-- 
2.43.0


From 7d0b7e618bba4d5a3ac5863d60c31ab20f3e3244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 33/54] fix: read_from_raw did not find files written by
 write_to_raw

write_to_raw appends the suffix .raw to names without it, read_from_raw did
not.
---
 vmmlib/matrix.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index eeb4697..ad4095b 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2640,6 +2640,12 @@ Matrix< M, N, T >::read_from_raw( const std::string& dir_, const std::string& fi
         path.append( "/" );
     }
     path.append( filename_ );
+    //check for format
+    if( filename_.find( "raw", filename_.size() -3) == std::string::npos )
+    {
+        path.append( ".");
+        path.append( "raw" );
+    }
 
     size_t max_file_len = 2147483648u - sizeof(T) ;
     size_t len_data = sizeof(T) * size();
-- 
2.43.0


From cfbb839137127f64067539575587472323d4d7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 34/54] fix: read_from_raw leaked its buffer if the file could
 not be opened

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index ad4095b..c04fdd3 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2649,12 +2649,12 @@ Matrix< M, N, T >::read_from_raw( const std::string& dir_, const std::string& fi
 
     size_t max_file_len = 2147483648u - sizeof(T) ;
     size_t len_data = sizeof(T) * size();
-    char* data = new char[ len_data ];
     std::ifstream infile;
     infile.open( path.c_str(), std::ios::in);
 
     if( infile.is_open())
     {
+        char* data = new char[ len_data ];
         iterator  it = begin(),
         it_end = end();
 
-- 
2.43.0


From 50cec1d581aa97e0873ae6c26b1307af6b54f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 35/54] fix: read_from_raw filled the matrix from uninitialised
 memory

if the file is shorter than the matrix.
---
 vmmlib/matrix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index c04fdd3..7e53117 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2664,6 +2664,9 @@ Matrix< M, N, T >::read_from_raw( const std::string& dir_, const std::string& fi
                                         len_data % max_file_len : len_data;
             len_data -= len_read;
             infile.read( data, len_read );
+            // of a short file, only what was there
+            len_read = infile.gcount();
+            len_read -= len_read % sizeof(T);
 
             T* T_ptr = (T*)&(data[0]);
             for( ; (it != it_end) && (len_read > 0); ++it, len_read -= sizeof(T) )
-- 
2.43.0


From ce7b56ca712633a8e94f6c6cc1c3a850f0af4253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 36/54] fix: vector.hpp did not compile unless something else
 had included <cstdint>

---
 vmmlib/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index b7e7173..867d20c 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -42,6 +42,7 @@
 #include <iomanip>
 #include <vector>
 #include <string>
+#include <cstdint>
 #include <cstring>
 #include <limits>
 #include <algorithm>
-- 
2.43.0


From 5b84ccf649af25279ac1d6d3d892d959ea476a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:17 +0000
Subject: [PATCH 37/54] fix: the Boost.LA matrix traits swapped rows and
 columns

---
 vmmlib/matrix_traits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/matrix_traits.hpp b/vmmlib/matrix_traits.hpp
index ab453e9..cf9015a 100644
--- a/vmmlib/matrix_traits.hpp
+++ b/vmmlib/matrix_traits.hpp
@@ -59,7 +59,7 @@ struct matrix_traits<vmml::matrix<M, N, T> >
 		BOOST_STATIC_ASSERT(Row < rows);
 		BOOST_STATIC_ASSERT(Col >= 0);
 		BOOST_STATIC_ASSERT(Col < cols);
-		return m.at(Col, Row);
+		return m.at(Row, Col);
 	}
 
 	template<int Row, int Col>
@@ -69,7 +69,7 @@ struct matrix_traits<vmml::matrix<M, N, T> >
 		BOOST_STATIC_ASSERT(Row < rows);
 		BOOST_STATIC_ASSERT(Col >= 0);
 		BOOST_STATIC_ASSERT(Col < cols);
-		return m.at(Col, Row);
+		return m.at(Row, Col);
 	}
 
 	static scalar_type ir(int row, int col, const matrix_type& m)
@@ -78,7 +78,7 @@ struct matrix_traits<vmml::matrix<M, N, T> >
 		BOOST_ASSERT(row < rows);
 		BOOST_ASSERT(col >= 0);
 		BOOST_ASSERT(col < cols);
-		return m.at(col, row);
+		return m.at(row, col);
 	}
 
 	static scalar_type& iw(int row, int col, matrix_type& m)
@@ -87,7 +87,7 @@ struct matrix_traits<vmml::matrix<M, N, T> >
 		BOOST_ASSERT(row < rows);
 		BOOST_ASSERT(col >= 0);
 		BOOST_ASSERT(col < cols);
-		return m.at(col, row);
+		return m.at(row, col);
 	}
 };
 
-- 
2.43.0


From 90ed27fd8d7a2e687bb6392ba2615b053610d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 38/54] fix: negating an unsigned matrix converted -1.0 to an
 unsigned type

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 7e53117..a1dcb03 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1207,7 +1207,7 @@ Matrix< M, N, T >
 Matrix< M, N, T >::negate() const
 {
     Matrix< M, N, T > result( *this );
-    result *= -1.0;
+    result *= static_cast< T >( -1 );
     return result;
 }
 
-- 
2.43.0


From f9fddf73bf253defee365ad404dbd2cb566f9b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 39/54] fix: quantising a constant matrix divided zero by zero

---
 vmmlib/matrix.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index a1dcb03..04d7184 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2464,6 +2464,12 @@ Matrix< M, N, T >::quantize_to( Matrix< M, N, TT >& quantized_, const T& min_val
     tt_iterator it_quant = quantized_.begin();
     const_iterator it = begin(), it_end = end();
 
+    if( t_range == 0 ) // all values are the same: any level stands for them
+    {
+        quantized_ = static_cast< TT >( 0 );
+        return;
+    }
+
     for( ; it != it_end; ++it, ++it_quant )
     {
         if (std::numeric_limits<TT>::is_signed ) {
-- 
2.43.0


From b3d2fedc5b961041e538d3e4ff0b4d9adb24bc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 40/54] fix: printing an 8 bit vector or matrix wrote
 characters, not numbers

---
 vmmlib/matrix.hpp | 2 +-
 vmmlib/vector.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 04d7184..3cb36df 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -465,7 +465,7 @@ public:
             os << "|";
             for( size_t col_index = 0; col_index < N; ++col_index )
             {
-                os << std::setw(10) << matrix.at( row_index, col_index ) << " ";
+                os << std::setw(10) << +matrix.at( row_index, col_index ) << " ";
             }
             os << "|" << std::endl;
         }
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 867d20c..a1ef3dc 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -346,7 +346,7 @@ public:
         os.precision( 5 );
         os << "[ ";
         for( size_t index = 0; index < M; ++index )
-            os << std::setw(10) << vector_.at( index ) << " ";
+            os << std::setw(10) << +vector_.at( index ) << " ";
         os << "]";
         os.precision( prec );
         os.flags( flags );
-- 
2.43.0


From 3035ff510ab2b3aba2ecbceb8a91f0eb0965f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 41/54] fix: squares of 64 bit integers were rounded to double

---
 vmmlib/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/math.hpp b/vmmlib/math.hpp
index 30d9013..a5dd612 100644
--- a/vmmlib/math.hpp
+++ b/vmmlib/math.hpp
@@ -49,7 +49,7 @@ namespace math
 template< class T >
 inline T squared( const T a )
 {
-    return ( a == 0.0 ) ? 0.0 : a * a;
+    return a * a;
 }
 
 
-- 
2.43.0


From 58c992aa28eccd7819605b5c136448f5b0870401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 42/54] fix: the norm of an integer vector or matrix overflowed
 in the squares

---
 vmmlib/matrix.hpp | 3 ++-
 vmmlib/vector.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 3cb36df..ef9b165 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2246,7 +2246,8 @@ Matrix< M, N, T >::frobenius_norm( ) const
     const_iterator it = begin(), it_end = end();
     for( ; it != it_end; ++it )
     {
-        norm += *it * *it;
+        const double value = static_cast< double >( *it );
+        norm += value * value;
     }
 
     return std::sqrt(norm);
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index a1ef3dc..65e11ef 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1747,7 +1747,8 @@ Vector< M, T >::norm( ) const
     const_iterator it = begin(), it_end = end();
     for( ; it != it_end; ++it )
     {
-        norm_v += *it * *it;
+        const double value = static_cast< double >( *it );
+        norm_v += value * value;
     }
 
     return std::sqrt(norm_v);
-- 
2.43.0


From 8629d9ca0e2d728569202b3c80d58e48dd9c9817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 43/54] fix: magnitudes of 64 bit integer matrix elements were
 rounded to double

---
 vmmlib/math.hpp   |  9 +++++++++
 vmmlib/matrix.hpp | 12 ++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/vmmlib/math.hpp b/vmmlib/math.hpp
index a5dd612..32c991a 100644
--- a/vmmlib/math.hpp
+++ b/vmmlib/math.hpp
@@ -70,6 +70,15 @@ inline T pythag( T a, T b )
 
 
 
+// exact for every integer type, which fabs() is not
+template< class T >
+inline T absolute( const T a )
+{
+    return ( a > 0 ) ? a : static_cast< T >( static_cast< T >( 0 ) - a );
+}
+
+
+
 template< class T >
 inline T sign( T a, T b )
 {
diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index ef9b165..1e981ad 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2371,8 +2371,8 @@ Matrix< M, N, T >::get_abs_min() const
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) < fabs(min_value) ) {
-            min_value = fabs(*it);
+        if ( math::absolute( *it ) < min_value ) {
+            min_value = math::absolute( *it );
         }
     }
     return min_value;
@@ -2388,8 +2388,8 @@ Matrix< M, N, T >::get_abs_max() const
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) > fabs(max_value) ) {
-            max_value = fabs(*it);
+        if ( math::absolute( *it ) > max_value ) {
+            max_value = math::absolute( *it );
         }
     }
     return max_value;
@@ -2425,7 +2425,7 @@ Matrix< M, N, T >::nnz( const T& threshold_ ) const
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) > threshold_ ) {
+        if ( math::absolute( *it ) > threshold_ ) {
             ++counter;
         }
     }
@@ -2441,7 +2441,7 @@ Matrix< M, N, T >::threshold( const T& threshold_value_ )
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) <= threshold_value_ ) {
+        if ( math::absolute( *it ) <= threshold_value_ ) {
             *it = static_cast<T> (0);
         }
     }
-- 
2.43.0


From 2946e03564e645ab16a7c2e4de1f18fba596afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 44/54] fix: find_abs_min_index() and manhattan() of unsigned
 vectors did not compile

---
 vmmlib/math.hpp | 4 ++--
 vmmlib/util.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmmlib/math.hpp b/vmmlib/math.hpp
index 32c991a..3fda85d 100644
--- a/vmmlib/math.hpp
+++ b/vmmlib/math.hpp
@@ -92,7 +92,7 @@ struct abs_less
 {
     T operator()( const T& a, const T& b )
     {
-        return std::abs(a) < std::abs( b );
+        return absolute( a ) < absolute( b );
     }
 };
 
@@ -102,7 +102,7 @@ struct abs_greater
 {
     T operator()( const T& a, const T& b )
     {
-        return std::abs(a) > std::abs( b );
+        return absolute( a ) > absolute( b );
     }
 };
 
diff --git a/vmmlib/util.hpp b/vmmlib/util.hpp
index d289dbf..e44ee7b 100644
--- a/vmmlib/util.hpp
+++ b/vmmlib/util.hpp
@@ -175,7 +175,7 @@ manhattan( const Vector< M, T > &arg )
 	T ret = 0;
 	for( size_t i = 0; i < M; ++i )
 	{
-		ret += std::abs(arg[i]);
+		ret += math::absolute( arg[i] );
 	}
 
 	return ret;
-- 
2.43.0


From 6308aed4614595548971fc19987a7c476c54c315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 45/54] fix: equals() of unsigned vectors and matrices depended
 on the order, and of integers was never true with the default tolerance

---
 vmmlib/matrix.hpp | 5 ++++-
 vmmlib/vector.hpp | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 1e981ad..aee235e 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -923,7 +923,10 @@ equals( const Matrix< M, N, T >& other, T tolerance ) const
     {
         for( size_t col_index = 0; is_ok && col_index < N; col_index++)
         {
-            is_ok = fabs( at( row_index, col_index ) - other( row_index, col_index ) ) < tolerance;
+            // the smaller from the larger one: unsigned differences wrap around
+            const T& left = at( row_index, col_index );
+            const T& right = other( row_index, col_index );
+            is_ok = ( left > right ? left - right : right - left ) <= tolerance;
         }
     }
     return is_ok;
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 65e11ef..adf7196 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1326,8 +1326,13 @@ bool
 Vector< M, T >::equals( const Vector< M, T >& other, T tolerance ) const
 {
     for( size_t index = 0; index < M; ++index )
-        if( fabs( at( index ) - other( index ) ) >= tolerance )
+    {
+        // the smaller from the larger one: unsigned differences wrap around
+        const T& left = at( index );
+        const T& right = other( index );
+        if( ( left > right ? left - right : right - left ) > tolerance )
             return false;
+    }
     return true;
 
 }
-- 
2.43.0


From 72b4d84736f13217ad47ca0c1d837466498f12d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 46/54] fix: scale_to() of integer vectors truncated the scale
 factor and overflowed in the offsets

---
 vmmlib/vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index adf7196..095f0a8 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1450,13 +1450,13 @@ void
 Vector< M, T >::scale_to( Vector< M, TT >& result_,
     T min_value, T max_value ) const
 {
-    T range       = max_value-min_value;
-    T scale       = ( 1.0 / range ) * static_cast< T >( std::numeric_limits< TT >::max() );
+    const double range = static_cast< double >( max_value ) - min_value;
+    const double scale = ( 1.0 / range ) * static_cast< double >( std::numeric_limits< TT >::max() );
 
     for( size_t index = 0; index < M; ++index )
     {
         result_.at( index )
-            = static_cast< TT >( ( at( index ) - min_value ) * scale );
+            = static_cast< TT >( ( static_cast< double >( at( index ) ) - min_value ) * scale );
     }
 
 }
-- 
2.43.0


From c1044dd5fe1d49da2fb78c476c12fc4fd81f0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 47/54] fix: integer vectors from homogenous coordinates were
 multiplied with a truncated reciprocal

---
 vmmlib/vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 095f0a8..72beaf9 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1369,10 +1369,9 @@ template< size_t M, typename T > template< size_t N >
 typename enable_if< N == M + 1 >::type*
 Vector< M, T >::operator=( const Vector< N, T >& source_ )
 {
-    const T w_reci = static_cast< T >( 1.0 ) / source_( M );
     iterator it = begin(), it_end = end();
     for( size_t index = 0; it != it_end; ++it, ++index )
-        *it = source_( index ) * w_reci;
+        *it = source_( index ) / source_( M );
     return 0;
 }
 
-- 
2.43.0


From c3373e0864d525eed03de23efdc69056687fd41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 48/54] fix: the empty AABB of floating point types other than
 float and double had a positive maximum

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index f6c7973..4b2e31c 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -114,7 +114,7 @@ inline std::ostream& operator << ( std::ostream& os,
 
 template< typename T > AABB< T >::AABB()
     : _min( std::numeric_limits< T >::max( ))
-    , _max( std::numeric_limits< T >::min( ))
+    , _max( std::numeric_limits< T >::lowest( ))
 {}
 
 template<> inline AABB< float >::AABB()
-- 
2.43.0


From 7b4db7935d08b8976899b32e8f09735155626456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 49/54] fix: set_sub_matrix() changed the matrix before it
 refused a block

With safe accessors, a block that sticks out was written up to the first
element outside. It is now refused first, as get_sub_matrix() does.
---
 vmmlib/matrix.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index aee235e..d3886ff 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1664,6 +1664,11 @@ Matrix< M, N, T >::
 set_sub_matrix( const Matrix< O, P, T >& sub_matrix,
     size_t row_offset, size_t col_offset )
 {
+    #ifdef VMMLIB_SAFE_ACCESSORS
+    if ( O + row_offset > M || P + col_offset > N )
+        VMMLIB_ERROR( "index out of bounds.", VMMLIB_HERE );
+    #endif
+
     for( size_t row = 0; row < O; ++row )
     {
         for( size_t col = 0; col < P; ++col )
-- 
2.43.0


From bb999cb05099d5c223a33c66139cf5cf61cb44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:24 +0000
Subject: [PATCH 50/54] fix: get_min() and get_abs_min() of a matrix of
 infinities returned the largest finite value

---
 vmmlib/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index d3886ff..d47b946 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2338,7 +2338,7 @@ template< size_t M, size_t N, typename T  >
 T
 Matrix< M, N, T >::get_min() const
 {
-    T min_value = static_cast<T>(std::numeric_limits<T>::max());
+    T min_value = array[ 0 ];
 
     const_iterator  it = begin(),
     it_end = end();
@@ -2373,7 +2373,7 @@ template< size_t M, size_t N, typename T  >
 T
 Matrix< M, N, T >::get_abs_min() const
 {
-    T min_value = static_cast<T>(std::numeric_limits<T>::max());
+    T min_value = math::absolute( array[ 0 ] );
 
     const_iterator  it = begin(),
     it_end = end();
-- 
2.43.0


From 0aaf840a6a4b7bda20d8e8c6b05d7f2d96a6b9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:44 +0000
Subject: [PATCH 51/54] fix: Vector::scale_to() of a range shorter than 1 to
 double overflowed

The largest value of the target type was divided by the length of the range
first, which is infinite for a double and a range shorter than 1, and gave NaN
for the lower end of the range.
---
 vmmlib/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 72beaf9..2b450e9 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1450,12 +1450,12 @@ Vector< M, T >::scale_to( Vector< M, TT >& result_,
     T min_value, T max_value ) const
 {
     const double range = static_cast< double >( max_value ) - min_value;
-    const double scale = ( 1.0 / range ) * static_cast< double >( std::numeric_limits< TT >::max() );
+    const double scale = static_cast< double >( std::numeric_limits< TT >::max() );
 
     for( size_t index = 0; index < M; ++index )
     {
         result_.at( index )
-            = static_cast< TT >( ( static_cast< double >( at( index ) ) - min_value ) * scale );
+            = static_cast< TT >( ( static_cast< double >( at( index ) ) - min_value ) / range * scale );
     }
 
 }
-- 
2.43.0


From 82d0d26dc0cf4ad56031ea411bc5b45168ee9d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:51 +0000
Subject: [PATCH 52/54] fix: quantize_to() converted values far outside of the
 range to long

The scaled value of an element far outside of the value range does not fit
into a long, so large values ended at the lower end of the integer range.
---
 vmmlib/matrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index d47b946..af07bf2 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2481,10 +2481,11 @@ Matrix< M, N, T >::quantize_to( Matrix< M, N, TT >& quantized_, const T& min_val
 
     for( ; it != it_end; ++it, ++it_quant )
     {
+        const T value = std::min( std::max( *it, min_value ), max_value ); // saturate
         if (std::numeric_limits<TT>::is_signed ) {
-            *it_quant = TT( std::min( std::max( min_tt_range, long((( *it - center ) * tt_range / t_range ) + 0.5)), max_tt_range ));
+            *it_quant = TT( std::min( std::max( min_tt_range, long((( value - center ) * tt_range / t_range ) + 0.5)), max_tt_range ));
         } else {
-            *it_quant = TT( std::min( std::max( min_tt_range, long(((*it - min_value) * tt_range / t_range) + 0.5)), max_tt_range ));
+            *it_quant = TT( std::min( std::max( min_tt_range, long(((value - min_value) * tt_range / t_range) + 0.5)), max_tt_range ));
         }
     }
 }
-- 
2.43.0


From 01230aa982246a041527c5328a3ad782c7bd6433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:11 +0000
Subject: [PATCH 53/54] fix: threshold() with one of the matrix's own elements
 changed its threshold while looping

---
 vmmlib/matrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index af07bf2..de9d4bb 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2445,11 +2445,13 @@ template< size_t M, size_t N, typename T >
 void
 Matrix< M, N, T >::threshold( const T& threshold_value_ )
 {
+    // threshold_value_ may refer to an element of this matrix
+    const T limit = threshold_value_;
     iterator  it = begin(),
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( math::absolute( *it ) <= threshold_value_ ) {
+        if ( math::absolute( *it ) <= limit ) {
             *it = static_cast<T> (0);
         }
     }
-- 
2.43.0


From 7e6877779b2b1ef783e1bfd3c626d4e440a1557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:11 +0000
Subject: [PATCH 54/54] fix: is_akin() compared double precision quaternions in
 single precision

---
 vmmlib/quaternion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 816a88d..0a88dfa 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -457,10 +457,10 @@ template < typename T >
 bool
 Quaternion< T >::is_akin( const Quaternion& a, const T& delta )
 {
-    if( fabsf( w() - a.w() ) > delta ||
-        fabsf( x() - a.x() ) > delta ||
-        fabsf( y() - a.y() ) > delta ||
-        fabsf( z() - a.z() ) > delta
+    if( std::fabs( w() - a.w() ) > delta ||
+        std::fabs( x() - a.x() ) > delta ||
+        std::fabs( y() - a.y() ) > delta ||
+        std::fabs( z() - a.z() ) > delta
         )
         return false;
     return true;
-- 
2.43.0

