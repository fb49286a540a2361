From f615cba36cda2aa735e1d288ebc4c427388b9e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 01/43] fix: linearIndex used the leading ranges instead of the
 trailing ones for its strides

---
 include/shiva/common/IndexTypes.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 83cb158..3c31825 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -59,11 +59,11 @@ stride( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & index )
   using IndexType = MultiIndexRange< BASE_INDEX_TYPE, RANGES... >;
 
   // call strideHelper on an integer_sequence that ranges from 0...(NUM_INDICES
-  // - 1 - INDEX).
-  // This will result in a fold expression that multiples entries of the ranges
-  // array for the integer_sequence.
+  // - 1 - INDEX), and on the ranges that follow INDEX.
+  // This will result in a fold expression that multiples all the entries of the
+  // ranges array that come after INDEX.
   return detail::strideHelper( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
-                               &(index.ranges[0]) );
+                               index.ranges + INDEX + 1 );
 }
 
 /**
-- 
2.43.0


From 818b4c503d855b0b0c86f0df2c50c8a0b2300b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 02/43] fix: forRange did not compile for multi-indices with a
 base type other than int

---
 include/shiva/common/IndexTypes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 3c31825..58b30dc 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -105,7 +105,7 @@ forRangeHelper( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & start,
   // if we are at the last dimension, then call func on index
   if constexpr ( DIM == (IndexType::NUM_INDICES - 1) )
   {
-    int & a = index.data[DIM];
+    BASE_INDEX_TYPE & a = index.data[DIM];
     for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
     {
       func( index );
@@ -114,7 +114,7 @@ forRangeHelper( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & start,
   // otherwise, recurse until we get to the last index
   else
   {
-    int & a = index.data[DIM];
+    BASE_INDEX_TYPE & a = index.data[DIM];
     for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
     {
       forRangeHelper< DIM + 1 >( start, index, func );
-- 
2.43.0


From ce55ad47c6e6a0a87361266ad7043566064dfe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:08 +0000
Subject: [PATCH 03/43] fix: linearIndex overflowed int for multi-indices with
 a wider base type

---
 include/shiva/common/IndexTypes.hpp | 7 ++++---
 include/shiva/common/MultiIndex.hpp | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 58b30dc..576990a 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -30,14 +30,15 @@ namespace detail
 
 /**
  * @brief Helper function for calculating a stride.
+ * @tparam BASE_INDEX_TYPE the base type of the index...i.e. "int"
  * @tparam INDICES variaic pack of the indices.
  * @param ranges The ranges.
  * @return The largest stride for the index pack.
  */
-template< int ... INDICES >
-SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE int
+template< typename BASE_INDEX_TYPE, int ... INDICES >
+SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE BASE_INDEX_TYPE
 strideHelper( std::integer_sequence< int, INDICES... >,
-              int const * const ranges )
+              BASE_INDEX_TYPE const * const ranges )
 {
   // return result of a fold expression that multiples all entries of the ranges
   // array
diff --git a/include/shiva/common/MultiIndex.hpp b/include/shiva/common/MultiIndex.hpp
index 0826173..2439918 100644
--- a/include/shiva/common/MultiIndex.hpp
+++ b/include/shiva/common/MultiIndex.hpp
@@ -61,14 +61,14 @@ struct MultiIndexRange
   static constexpr int NUM_INDICES = sizeof...(RANGES);
 
   /// contains the range for each index
-  static constexpr int ranges[NUM_INDICES] = { RANGES ...};
+  static constexpr BASE_INDEX_TYPE ranges[NUM_INDICES] = { RANGES ...};
 
   /**
    * @brief Returns the range for a given index.
    * @param i The index.
    * @return The range for the given index.
    */
-  SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE int range( int const i )
+  SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE BASE_INDEX_TYPE range( int const i )
   {
     return ranges[i];
   }
-- 
2.43.0


From c96f9b4aa6dbf037d6c16845074ea7a2aeb64e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 04/43] fix: Shiva.hpp included headers that no longer exist

---
 include/shiva/Shiva.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/shiva/Shiva.hpp b/include/shiva/Shiva.hpp
index 6aa79b3..43ba4c0 100644
--- a/include/shiva/Shiva.hpp
+++ b/include/shiva/Shiva.hpp
@@ -11,6 +11,9 @@
  * ------------------------------------------------------------------------------------------------------------
  */
 
-#include "geometry/Cube.hpp"
-#include "geometry/Cuboid.hpp"
-#include "geometry/RectangularCuboid.hpp"
+#pragma once
+
+#include "geometry/mapping/JacobianTransforms.hpp"
+#include "geometry/mapping/LinearTransform.hpp"
+#include "geometry/mapping/Scaling.hpp"
+#include "geometry/mapping/UniformScaling.hpp"
-- 
2.43.0


From 6e484b88b430df298431b8423c5de44ec4c02ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 05/43] fix: basis products and Lagrange gradients did not
 compile as C++20

---
 include/shiva/functions/bases/BasisProduct.hpp  | 6 ++----
 include/shiva/functions/bases/LagrangeBasis.hpp | 5 +++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/shiva/functions/bases/BasisProduct.hpp b/include/shiva/functions/bases/BasisProduct.hpp
index 2e19417..ab83fca 100644
--- a/include/shiva/functions/bases/BasisProduct.hpp
+++ b/include/shiva/functions/bases/BasisProduct.hpp
@@ -94,7 +94,7 @@ struct BasisProduct
     // expand pack over number of dimensions
     return executeSequence< numDims >( [&]< int ... PRODUCT_TERM_INDEX > () constexpr
     {
-      return ( BASIS_TYPE::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
+      return ( BASIS_TYPES::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
     } );
 #else
     return executeSequence< numDims >( [&] ( auto ... PRODUCT_TERM_INDEX ) constexpr
@@ -135,10 +135,8 @@ struct BasisProduct
 #if __cplusplus >= 202002L
     return executeSequence< numDims >( [&]< int ... i > () constexpr->CArrayNd< RealType, numDims >
     {
-      auto gradientComponent = [&] ( auto const iGrad,
-                                     auto const  ... PRODUCT_TERM_INDICES ) constexpr
+      auto gradientComponent = [&]< int ... PRODUCT_TERM_INDICES > ( auto const iGrad ) constexpr
       {
-        // Ca
         return ( gradientComponentHelper< BASIS_TYPES,
                                           decltype(iGrad)::value,
                                           BASIS_FUNCTION_INDICES,
diff --git a/include/shiva/functions/bases/LagrangeBasis.hpp b/include/shiva/functions/bases/LagrangeBasis.hpp
index 9330885..b65b6ae 100644
--- a/include/shiva/functions/bases/LagrangeBasis.hpp
+++ b/include/shiva/functions/bases/LagrangeBasis.hpp
@@ -119,10 +119,11 @@ public:
 #if __cplusplus >= 202002L
     return executeSequence< numSupportPoints >( [&coord]< int ... a > () constexpr
     {
-      auto func = [&coord]< int ... b > ( auto aa ) constexpr
+      REAL_TYPE const values[ numSupportPoints ] = { valueProductTerm< BF_INDEX, a >( coord )... };
+      auto func = [&values]< int ... b > ( auto aa ) constexpr
       {
         constexpr int aVal = decltype(aa)::value;
-        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< BF_INDEX, b, aVal >( coord ) * ... );
+        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< b, aVal >( values ) * ... );
       };
 
       return ( executeSequence< numSupportPoints >( func, std::integral_constant< int, a >{} ) + ... );
-- 
2.43.0


From 064ebf570945f8ebb08336b947c95e4b065f8fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 06/43] fix: run-time Gauss-Lobatto coordinates were 0 for 6 to
 9 points

---
 include/shiva/functions/spacing/Spacing.hpp | 24 +++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/shiva/functions/spacing/Spacing.hpp b/include/shiva/functions/spacing/Spacing.hpp
index 8f5ca29..ea4e73f 100644
--- a/include/shiva/functions/spacing/Spacing.hpp
+++ b/include/shiva/functions/spacing/Spacing.hpp
@@ -184,6 +184,30 @@ struct GaussLobattoSpacing
       // if ( index == 3 ) return  sqrt3div7;
       // if ( index == 4 ) return  1.0;
     }
+    else if constexpr ( N == 6 )
+    {
+      constexpr REAL_TYPE rval[6] = { -1.0, -0.7650553239294648, -0.2852315164806455,
+                                      0.2852315164806455, 0.7650553239294648, 1.0 };
+      return rval[index];
+    }
+    else if constexpr ( N == 7 )
+    {
+      constexpr REAL_TYPE rval[7] = { -1.0, -0.83022389627857, -0.4688487934707, 0.0,
+                                      0.4688487934707, 0.83022389627857, 1.0 };
+      return rval[index];
+    }
+    else if constexpr ( N == 8 )
+    {
+      constexpr REAL_TYPE rval[8] = { -1.0, -0.87174014850961, -0.59170018143314, -0.20929921790248,
+                                      0.20929921790248, 0.59170018143314, 0.87174014850961, 1.0 };
+      return rval[index];
+    }
+    else if constexpr ( N == 9 )
+    {
+      constexpr REAL_TYPE rval[9] = { -1.0, -0.89975799541146, -0.67718627951074, -0.36311746382618, 0.0,
+                                      0.36311746382618, 0.67718627951074, 0.89975799541146, 1.0 };
+      return rval[index];
+    }
     return 0;
   }
 
-- 
2.43.0


From 2529f490d1522d7cc02b37f169a79c82dc5a0541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 07/43] fix: spacings answered 0 for unsupported numbers of
 points instead of rejecting them

---
 include/shiva/functions/spacing/Spacing.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/shiva/functions/spacing/Spacing.hpp b/include/shiva/functions/spacing/Spacing.hpp
index ea4e73f..261a384 100644
--- a/include/shiva/functions/spacing/Spacing.hpp
+++ b/include/shiva/functions/spacing/Spacing.hpp
@@ -84,6 +84,7 @@ struct GaussLegendreSpacing
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE coordinate( int const index )
   {
+    static_assert( N >= 1 && N <= 4, "Unsupported number of points" );
     if constexpr ( N == 2 )
     {
       return invSqrt3 * ( -1.0 + index * 2 );
@@ -110,6 +111,7 @@ struct GaussLegendreSpacing
   template< int INDEX >
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE coordinate()
   {
+    static_assert( N >= 1 && N <= 4, "Unsupported number of points" );
     if constexpr ( N == 2 )
     {
       return invSqrt3 * ( -1.0 + INDEX * 2.0 );
@@ -158,6 +160,7 @@ struct GaussLobattoSpacing
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE coordinate( int const index )
   {
+    static_assert( N >= 2 && N <= 9, "Unsupported number of points" );
     if constexpr ( N == 2 )
     {
       return ( -1.0 + index * 2.0 );
@@ -220,6 +223,7 @@ struct GaussLobattoSpacing
   template< int INDEX >
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE coordinate()
   {
+    static_assert( N >= 2 && N <= 9, "Unsupported number of points" );
     if constexpr ( N == 2 )
     {
       return ( -1.0 + INDEX * 2.0 );
-- 
2.43.0


From b9828f0b2b10d731d067754b6c0eb96583488270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 08/43] fix: LinearTransform jacobian and inverseJacobian added
 to what the output held

---
 include/shiva/geometry/mapping/LinearTransform.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index 63e78e3..d3e85be 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -168,6 +168,7 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   constexpr int DIMS = Transform::numDims;
 
   auto const & nodeCoords = transform.getData();
+  J = typename Transform::JacobianType{};
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
   {
     CArrayNd< REAL_TYPE, DIMS > const dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( pointCoordsParent );
@@ -215,6 +216,7 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   auto const & nodeCoords = transform.getData();
   constexpr REAL_TYPE qcoords[3] = { ( QUADRATURE::template coordinate< QA >() )... };
 
+  J = typename Transform::JacobianType{};
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
   {
     constexpr CArrayNd< REAL_TYPE, DIMS > dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( qcoords );
-- 
2.43.0


From 94fba9a3184cafb3d1cf3dc39a99b0087a8deaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 09/43] fix: LinearTransform setData misplaced the nodes of
 shapes above first order

---
 include/shiva/geometry/mapping/LinearTransform.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index d3e85be..94872a4 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -106,11 +106,14 @@ public:
 
   /**
    * @brief Sets the coordinates of the vertices of the cell
-   * @param[in] coords The coordinates of the vertices of the cell
+   * @param[in] coords The coordinates of the vertices of the cell, with the
+   * index of the first direction running fastest.
    */
   template< typename T >
   constexpr SHIVA_HOST_DEVICE SHIVA_FORCE_INLINE void setData( T const & coords )
   {
+    constexpr int numA = SupportIndexType::range( 0 );
+    constexpr int numB = SupportIndexType::range( 1 );
 
     SupportIndexType index;
     forRange( index = {0, 0, 0}, [&] ( auto const & aa )
@@ -121,7 +124,7 @@ public:
 
       for ( int i = 0; i < numDims; ++i )
       {
-        m_vertexCoords( a, b, c, i ) = coords[a + 2 * b + 4 * c][i];
+        m_vertexCoords( a, b, c, i ) = coords[a + numA * ( b + numB * c )][i];
       }
     } );
   }
-- 
2.43.0


From 98f2ebf3c1271bf59820d48f315d0d9742e6b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 10/43] fix: NCube entity counts overflowed int from 10
 dimensions on

---
 include/shiva/geometry/shapes/NCube.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/geometry/shapes/NCube.hpp b/include/shiva/geometry/shapes/NCube.hpp
index dc1b370..6366e17 100644
--- a/include/shiva/geometry/shapes/NCube.hpp
+++ b/include/shiva/geometry/shapes/NCube.hpp
@@ -76,7 +76,7 @@ public:
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE int numMCubes()
   {
     static_assert( M <= N, "M must be less than or equal to N" );
-    return mathUtilities::pow< int, N - M >( 2 ) * mathUtilities::factorial< int, N >::value / ( mathUtilities::factorial< int, M >::value * mathUtilities::factorial< int, N - M >::value );
+    return mathUtilities::pow< int, N - M >( 2 ) * mathUtilities::binomialCoefficient< int, N, M >::value;
   }
 
   /**
-- 
2.43.0


From 5d0310508e67906f6f83b32127884245378d1da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 11/43] fix: assertions, and so bounds checks, were skipped in
 constant evaluation

---
 include/shiva/common/ShivaMacros.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/shiva/common/ShivaMacros.hpp b/include/shiva/common/ShivaMacros.hpp
index add0299..f7346ea 100644
--- a/include/shiva/common/ShivaMacros.hpp
+++ b/include/shiva/common/ShivaMacros.hpp
@@ -142,12 +142,13 @@ void i_g_n_o_r_e( ARGS const & ... ) {}
  * @brief This macro is used to implement an assertion.
  * @param cond The condition to assert is true.
  * @param ... The message to print if the assertion fails.
+ *
+ * An assertion that fails in a constant evaluation makes the evaluated
+ * expression non-constant, because shivaAssertionFailed() is not constexpr.
  */
 #define SHIVA_ASSERT_MSG( cond, ... ) \
         do { \
           if ( !(cond)) { \
-            if ( !SHIVA_IS_CONST_EVAL() ) { \
-              shivaAssertionFailed( __FILE__, __LINE__, true, __VA_ARGS__ ); \
-            } \
+            shivaAssertionFailed( __FILE__, __LINE__, true, __VA_ARGS__ ); \
           } \
         } while ( 0 )
-- 
2.43.0


From 8d72a6ae75a9f76d6f7c7c3d0d5bca2af69780cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 12/43] fix: ScalarView could not be used

---
 include/shiva/common/CArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/CArray.hpp b/include/shiva/common/CArray.hpp
index d7cb7d5..0d81841 100644
--- a/include/shiva/common/CArray.hpp
+++ b/include/shiva/common/CArray.hpp
@@ -271,7 +271,7 @@ using CArrayNd = CArray< T, T[CArrayHelper::size< DIMS ... >()], DIMS ... >;
  * @tparam T Type held in the scalar
  */
 template< typename T >
-using ScalarView = CArray< T, T, 1 >;
+using ScalarView = CArray< T, T * const, 1 >;
 
 /**
  * @brief Alias for a N-d array view.
-- 
2.43.0


From e73ed0ce527de9f4365ed74fe9d8d1901a53186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 13/43] fix: executeSequence tested a callable with another
 argument order than it called it with

---
 include/shiva/common/SequenceUtilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/SequenceUtilities.hpp b/include/shiva/common/SequenceUtilities.hpp
index 02eeee4..193ee13 100644
--- a/include/shiva/common/SequenceUtilities.hpp
+++ b/include/shiva/common/SequenceUtilities.hpp
@@ -127,7 +127,7 @@ struct SequenceExpansion< std::integer_sequence< int, DIMENSION_INDICES... > >
     // This checks to see if the function is invocable with the parameter pack
     // provided as a template parameter. In other words, if the FUNC is a
     // function that takes the parameter pack as a function argument.
-    if constexpr ( std::is_invocable_v< FUNC, std::integral_constant< int, DIMENSION_INDICES >..., ARGS ... > )
+    if constexpr ( std::is_invocable_v< FUNC, ARGS ..., std::integral_constant< int, DIMENSION_INDICES >... > )
     {
       // calling func with the parameter packs ( args..., DIMENSION_INDICES...)
       // as arguments.
-- 
2.43.0


From 22baf5c138f098374c53b9257b29611a072f0a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 14/43] fix: the kernel wrapper used a CUDA constant in HIP
 builds

---
 include/shiva/common/pmpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index a6f133e..76d6eef 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -37,6 +37,7 @@ namespace shiva
 #define deviceError_t cudaError_t
 #define deviceGetErrorString    cudaGetErrorString
 #define deviceMemcpyDeviceToHost cudaMemcpyDeviceToHost
+#define deviceMemcpyHostToDevice cudaMemcpyHostToDevice
 constexpr cudaError_t deviceSuccess = cudaSuccess;
 #elif defined(SHIVA_ENABLE_HIP)
 #define deviceMalloc( PTR, BYTES ) hipMalloc( PTR, BYTES );
@@ -47,6 +48,7 @@ constexpr cudaError_t deviceSuccess = cudaSuccess;
 #define deviceError_t hipError_t
 #define deviceGetErrorString    hipGetErrorString
 #define deviceMemcpyDeviceToHost hipMemcpyDeviceToHost
+#define deviceMemcpyHostToDevice hipMemcpyHostToDevice
 constexpr hipError_t deviceSuccess = hipSuccess;
 #endif
 #endif
@@ -159,7 +161,7 @@ void genericKernelWrapper( int const N, DATA_TYPE * const hostData, LAMBDA && fu
 #if defined(SHIVA_ENABLE_DEVICE)
   DATA_TYPE * deviceData;
   deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
-  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), cudaMemcpyHostToDevice );
+  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
   // UNCRUSTIFY-OFF
   genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
   // UNCRUSTIFY-ON
-- 
2.43.0


From 76ae83246461474c088669dd26e5a7e111512c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 15/43] fix: aggregate lost the includes that follow the one of
 the config header

---
 scripts/aggregateOrSplit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 251174e..2041f5c 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -35,7 +35,7 @@ class HeaderFileManager:
                     if include_match:
                         included_file = include_match.group(1)
 
-                        if included_file != self.config_file:
+                        if os.path.basename(included_file) != self.config_file:
                             resolved_path = self.resolve_path( included_file, base_path, include_paths)
 
                             if resolved_path:
-- 
2.43.0


From 963311848bd16eb06016ad438ca81da6e5c3059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 16/43] fix: aggregate reported success after failing to
 resolve an include

---
 scripts/aggregateOrSplit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 2041f5c..5ad5162 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -52,6 +52,7 @@ class HeaderFileManager:
                                     f"Unable to resolve dependency: {included_file}")
         except Exception as e:
             print(f"Error processing {header}: {e}")
+            raise
 
         # Update dependents
         for dependency in self.dependencies[header]:
-- 
2.43.0


From 57ac04a10a247eefcf34c599d9da5a06c646d8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 17/43] fix: aggregate never ended on an include cycle

---
 scripts/aggregateOrSplit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 5ad5162..5b6fab9 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -102,6 +102,9 @@ class HeaderFileManager:
                         unique_files.add(abs_key)
                     local_included.append(key)
 
+            if not local_included:
+                raise RuntimeError(f"Include cycle among: {sorted(remaining_dependencies)}")
+
             for included_key in local_included:
                 del remaining_dependencies[included_key]
 
-- 
2.43.0


From 03330def92ce5b235eee54086fd8a68a3fa4b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 18/43] fix: aggregate overlooked indented and compact
 directives

---
 scripts/aggregateOrSplit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 5b6fab9..1808792 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -31,7 +31,7 @@ class HeaderFileManager:
         try:
             with open(header, 'r') as file:
                 for line in file:
-                    include_match = re.match(r'#include\s+"([^"]+)"', line)
+                    include_match = re.match(r'\s*#\s*include\s*"([^"]+)"', line)
                     if include_match:
                         included_file = include_match.group(1)
 
@@ -130,8 +130,8 @@ class HeaderFileManager:
             with open(header_path, 'r') as file:
                 output.write(f"\n\n// ===== Start of {header_path} =====\n")
                 for line in file:
-                    include_match = re.match(r'#include\s+"([^"]+)"', line)
-                    pragma_once_match = re.match(r'#pragma\s+once', line, re.IGNORECASE)
+                    include_match = re.match(r'\s*#\s*include\s*"([^"]+)"', line)
+                    pragma_once_match = re.match(r'\s*#\s*pragma\s+once', line, re.IGNORECASE)
                     if include_match:
                         # Comment out include statements
                         output.write(f"// {line.strip()}\n")
-- 
2.43.0


From 91e301e0d38619125e771050bb7415dd65ebb1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 19/43] fix: split left the includes and pragmas of the headers
 commented out

---
 scripts/aggregateOrSplit.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 1808792..a1ff14d 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -9,6 +9,7 @@ class HeaderFileManager:
         self.included = set()  # Tracks already processed files
         self.included_list = []
         self.config_file = "ShivaConfig.hpp"
+        self.disabled_prefix = "// [aggregated] "  # Marks the lines that aggregating comments out
 
     def create_dependency_graph(self, header, include_paths=None):
         """
@@ -134,13 +135,13 @@ class HeaderFileManager:
                     pragma_once_match = re.match(r'\s*#\s*pragma\s+once', line, re.IGNORECASE)
                     if include_match:
                         # Comment out include statements
-                        output.write(f"// {line.strip()}\n")
+                        output.write(f"{self.disabled_prefix}{line.rstrip()}\n")
                     elif pragma_once_match:
                         # Comment out #pragma once
-                        output.write(f"// {line.strip()}\n")
+                        output.write(f"{self.disabled_prefix}{line.rstrip()}\n")
                     else:
                         # Write all other lines as is
-                        output.write(line)
+                        output.write(line if line.endswith("\n") else line + "\n")
                 output.write(f"// ===== End of {header_path} =====\n")
 
         with open(output_file, 'w') as output:
@@ -181,6 +182,8 @@ class HeaderFileManager:
                         output.close()
                         output = None
                 elif output:
+                    if line.startswith(self.disabled_prefix):
+                        line = line[len(self.disabled_prefix):]
                     output.write(line)
 
         if output:
-- 
2.43.0


From a8949b328d91d8a8119c3e14d0b9ca3b2e8181e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 20/43] fix: split overwrote the original headers instead of
 writing to the output directory

---
 scripts/aggregateOrSplit.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index a1ff14d..19ec38e 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -167,6 +167,11 @@ class HeaderFileManager:
         current_file = None
         output = None
 
+        # The markers hold the paths the headers were read from: keep the part below their common directory.
+        with open(aggregated_file, 'r') as agg_file:
+            headers = re.findall(r'^// ===== Start of (.+) =====$', agg_file.read(), re.MULTILINE)
+        base_path = os.path.commonpath([os.path.dirname(os.path.abspath(header)) for header in headers] or [os.getcwd()])
+
         with open(aggregated_file, 'r') as agg_file:
             for line in agg_file:
                 start_match = re.match(r'// ===== Start of (.+) =====', line)
@@ -176,7 +181,9 @@ class HeaderFileManager:
                     if output:
                         output.close()
                     current_file = start_match.group(1)
-                    output = open(os.path.join(output_dir, current_file), 'w')
+                    split_file = os.path.join(output_dir, os.path.relpath(os.path.abspath(current_file), base_path))
+                    os.makedirs(os.path.dirname(split_file), exist_ok=True)
+                    output = open(split_file, 'w')
                 elif end_match:
                     if output:
                         output.close()
-- 
2.43.0


From 5796336d06acb43a6bc0b3eea3a125cfe7651cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 21/43] fix: config-build reported success when CMake failed

---
 scripts/config-build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/config-build.py b/scripts/config-build.py
index a345ac7..21510f1 100755
--- a/scripts/config-build.py
+++ b/scripts/config-build.py
@@ -181,7 +181,7 @@ os.chdir(buildpath)
 print("Executing cmake line: '%s'\n" % cmakeline)
 
 try:
-    subprocess.call(cmakeline,shell=True)
+    subprocess.check_call(cmakeline,shell=True)
     if args.graphviz:
         subprocess.call(dot_line, shell=True)
 except:
-- 
2.43.0


From fb8d76c81c5114f0c2b589d3aed5e1d5ad1d1752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 22/43] fix: config-build let the shell split paths and CMake
 arguments with spaces

---
 scripts/config-build.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scripts/config-build.py b/scripts/config-build.py
index 21510f1..b9c4893 100755
--- a/scripts/config-build.py
+++ b/scripts/config-build.py
@@ -8,6 +8,7 @@ import os
 import subprocess
 import argparse
 import platform
+import shlex
 import shutil
 
 def extract_cmake_location(file_path):
@@ -137,11 +138,11 @@ cmakeline = "cmake"
 assert cmakeline, "Host config file doesn't contain valid cmake location, value was %s" % cmakeline
 
 # Add cache file option
-cmakeline += " -C %s" % cachefile
+cmakeline += " -C %s" % shlex.quote(cachefile)
 # Add build type (opt or debug)
 cmakeline += " -DCMAKE_BUILD_TYPE=" + args.buildtype
 # Set install dir
-cmakeline += " -DCMAKE_INSTALL_PREFIX=%s" % installpath
+cmakeline += " -DCMAKE_INSTALL_PREFIX=%s" % shlex.quote(installpath)
 
 if args.exportcompilercommands:
     cmakeline += " -DCMAKE_EXPORT_COMPILE_COMMANDS=on"
@@ -161,9 +162,9 @@ if args.graphviz:
 
 
 if unknown_args:
-    cmakeline += " " + " ".join( unknown_args )
+    cmakeline += " " + " ".join( shlex.quote( arg ) for arg in unknown_args )
 
-cmakeline += " %s/.. " % scriptsdir
+cmakeline += " %s/.. " % shlex.quote(scriptsdir)
 
 # Dump the cmake command to file for convenience
 cmdfile = open("%s/cmake_cmd" % buildpath, "w")
-- 
2.43.0


From 2f7ad34750e66f5e00f46ba9c688a69c41eec808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 23/43] fix: compare_uncrustify took comments of lines without
 a value for settings

---
 scripts/compare_uncrustify.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/compare_uncrustify.py b/scripts/compare_uncrustify.py
index 01f8d74..d466634 100644
--- a/scripts/compare_uncrustify.py
+++ b/scripts/compare_uncrustify.py
@@ -4,13 +4,13 @@ def read_uncrustify_config(filename):
     config = {}
     with open(filename, 'r') as file:
         for line in file:
-            line = line.strip()
-            if line and not line.startswith('#'):  # Ignore empty lines and comments
-                # Split on the first '=' character to handle inline comments
+            line = line.split('#', 1)[0].strip()  # Ignore comments
+            if line:  # Ignore empty lines
+                # Split on the first '=' character
                 key_value = line.split('=', 1)
                 if len(key_value) == 2:
                     key, value = key_value
-                    config[key.strip()] = value.split('#')[0].strip()
+                    config[key.strip()] = value.strip()
                 elif len(key_value) == 1:
                     key = key_value[0]
                     config[key.strip()] = ''
-- 
2.43.0


From bf9ee136808c590aa61b56b66a49a45c8622d2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 24/43] fix: square brackets wrapped indices of wider types
 into range

---
 include/shiva/common/CArray.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/shiva/common/CArray.hpp b/include/shiva/common/CArray.hpp
index 0d81841..a6a6952 100644
--- a/include/shiva/common/CArray.hpp
+++ b/include/shiva/common/CArray.hpp
@@ -178,32 +178,37 @@ private:
   /**
    * @brief Helper function to enable operator[].
    * @tparam CARRAY_TYPE The type of the array to create. Either const_type or type.
+   * @tparam INDEX_TYPE The type of the index, not converted so that no value outside of index_type gets wrapped into range.
    * @param index The index to access.
    * @return A reference to the data at the specified index or the subarray.
    */
-  template< template< int ... > typename CARRAY_TYPE >
+  template< template< int ... > typename CARRAY_TYPE, typename INDEX_TYPE >
   SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE
-  decltype(auto) squareBracketOperatorHelper( index_type index ) const;
+  decltype(auto) squareBracketOperatorHelper( INDEX_TYPE index ) const;
 
 public:
   /**
    * @brief operator[] to access the data in the array or to slice a multidimensional array.
+   * @tparam INDEX_TYPE The type of the index.
    * @param index The index to access.
    * @return A reference to the data at the specified index or the subarray.
    */
+  template< typename INDEX_TYPE >
   SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE
-  decltype(auto) operator[]( index_type index ) const
+  decltype(auto) operator[]( INDEX_TYPE index ) const
   {
     return squareBracketOperatorHelper< SubArrayHelper::template const_type >( index );
   }
 
   /**
    * @brief operator[] to access the data in the array or to slice a mutlidimensional array.
+   * @tparam INDEX_TYPE The type of the index.
    * @param index The index to access.
    * @return A reference to the data at the specified index or the subarray.
    */
+  template< typename INDEX_TYPE >
   SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE
-  decltype(auto) operator[]( index_type index )
+  decltype(auto) operator[]( INDEX_TYPE index )
   {
     if constexpr ( std::is_reference_v< decltype(squareBracketOperatorHelper< SubArrayHelper::template type >( index )) > )
     {
@@ -223,10 +228,10 @@ private:
 
 /// @copydoc CArray::squareBracketOperatorHelper
 template< typename T, typename DATA_BUFFER, int ... DIMS >
-template< template< int ... > typename CARRAY_TYPE >
+template< template< int ... > typename CARRAY_TYPE, typename INDEX_TYPE >
 SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE
 decltype(auto)
-CArray< T, DATA_BUFFER, DIMS ... >::squareBracketOperatorHelper( index_type index ) const
+CArray< T, DATA_BUFFER, DIMS ... >::squareBracketOperatorHelper( INDEX_TYPE index ) const
 {
   static_assert( sizeof...(DIMS) >= 1, "operator[] is only valid for sizeof...(DIMS) >= 1" );
 
-- 
2.43.0


From 9562209af7d04cfc70f14995edcbb9fc5839eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 25/43] fix: float element gradients and returned Jacobians did
 not compile with clang

They were initialized with a double literal, which CArray's constructor
narrows to float inside braces.
---
 .../finiteElementMethod/parentElements/ParentElement.hpp      | 2 +-
 include/shiva/geometry/mapping/JacobianTransforms.hpp         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp b/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
index 20c8a99..7342ad0 100644
--- a/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
+++ b/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
@@ -128,7 +128,7 @@ public:
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE CArrayNd< RealType, numDims >
   gradient( CoordType const & parentCoord, VAR_TYPE const & var )
   {
-    CArrayNd< RealType, numDims > rval = {0.0};
+    CArrayNd< RealType, numDims > rval{};
     forNestedSequence< BASIS_TYPE::numSupportPoints... >( [&] ( auto const ... ic_indices ) constexpr
     {
       CArrayNd< RealType, numDims > const grad = gradient< decltype(ic_indices)::value ... >( parentCoord );
diff --git a/include/shiva/geometry/mapping/JacobianTransforms.hpp b/include/shiva/geometry/mapping/JacobianTransforms.hpp
index 2b533f5..f131fb8 100644
--- a/include/shiva/geometry/mapping/JacobianTransforms.hpp
+++ b/include/shiva/geometry/mapping/JacobianTransforms.hpp
@@ -48,7 +48,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 jacobian( BASE_GEOMETRY const & cell,
           REAL_TYPE const (&parentCoords)[3] )
 {
-  typename BASE_GEOMETRY::JacobianType J{0.0 };
+  typename BASE_GEOMETRY::JacobianType J{};
   jacobian( cell, parentCoords, J );
   return J;
 }
@@ -58,7 +58,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 inverseJacobian( BASE_GEOMETRY const & cell,
                  REAL_TYPE const (&parentCoords)[3] )
 {
-  typename BASE_GEOMETRY::JacobianType invJ{ 0.0 };
+  typename BASE_GEOMETRY::JacobianType invJ{};
   REAL_TYPE detJ;
   inverseJacobian( cell, parentCoords, invJ, detJ );
   return make_tuple( detJ, invJ );
-- 
2.43.0


From f0038e550f02f659522b6c56a5dfa3ce05e90ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:50 +0000
Subject: [PATCH 26/43] fix: returned inverse Jacobians could not be evaluated
 at compile time in C++17

---
 include/shiva/geometry/mapping/JacobianTransforms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/geometry/mapping/JacobianTransforms.hpp b/include/shiva/geometry/mapping/JacobianTransforms.hpp
index f131fb8..d6c9d3c 100644
--- a/include/shiva/geometry/mapping/JacobianTransforms.hpp
+++ b/include/shiva/geometry/mapping/JacobianTransforms.hpp
@@ -38,7 +38,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 inverseJacobian( BASE_GEOMETRY const & cell )
 {
   typename BASE_GEOMETRY::JacobianType invJ;
-  REAL_TYPE detJ;
+  REAL_TYPE detJ{};
   inverseJacobian( cell, invJ, detJ );
   return make_tuple( detJ, invJ );
 }
@@ -59,7 +59,7 @@ inverseJacobian( BASE_GEOMETRY const & cell,
                  REAL_TYPE const (&parentCoords)[3] )
 {
   typename BASE_GEOMETRY::JacobianType invJ{};
-  REAL_TYPE detJ;
+  REAL_TYPE detJ{};
   inverseJacobian( cell, parentCoords, invJ, detJ );
   return make_tuple( detJ, invJ );
 }
-- 
2.43.0


From 0a77454346593d051ed6b1736c384e9371230c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:42 +0000
Subject: [PATCH 27/43] fix: config-build failed for a build directory inside
 the install directory

---
 scripts/config-build.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/config-build.py b/scripts/config-build.py
index b9c4893..4930feb 100755
--- a/scripts/config-build.py
+++ b/scripts/config-build.py
@@ -128,6 +128,8 @@ if os.path.exists(installpath):
 
 print("Creating install path '%s'..." % installpath)
 os.makedirs(installpath)
+# cleaning up the old install directory may have removed a build directory inside it
+os.makedirs(buildpath, exist_ok=True)
 
 ############################
 # Build CMake command line
-- 
2.43.0


From 0dd3578f8354b83379c233db2659ec8584b893e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:11 +0000
Subject: [PATCH 28/43] fix: pmpl::check squared its arguments, which under-
 and overflows

---
 include/shiva/common/pmpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index 76d6eef..f6265cc 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -73,7 +73,7 @@ namespace pmpl
 template< typename REAL_TYPE >
 static constexpr bool check( REAL_TYPE const a, REAL_TYPE const b, REAL_TYPE const tolerance )
 {
-  return ( a - b ) * ( a - b ) < tolerance * tolerance;
+  return ( a > b ? a - b : b - a ) < tolerance;
 }
 
 
-- 
2.43.0


From 1a6181c46f3e22001d9e57d34395a475ba3c7573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 29/43] fix: the kernel wrappers ignored failing launches,
 allocations and copies

---
 include/shiva/common/pmpl.hpp | 39 +++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index f6265cc..880b2b7 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -34,6 +34,7 @@ namespace shiva
 #define deviceDeviceSynchronize() cudaDeviceSynchronize();
 #define deviceMemCpy( DST, SRC, BYTES, KIND ) cudaMemcpy( DST, SRC, BYTES, KIND );
 #define deviceFree( PTR ) cudaFree( PTR );
+#define deviceGetLastError() cudaGetLastError()
 #define deviceError_t cudaError_t
 #define deviceGetErrorString    cudaGetErrorString
 #define deviceMemcpyDeviceToHost cudaMemcpyDeviceToHost
@@ -45,6 +46,7 @@ constexpr cudaError_t deviceSuccess = cudaSuccess;
 #define deviceDeviceSynchronize() hipDeviceSynchronize();
 #define deviceMemCpy( DST, SRC, BYTES, KIND ) hipMemcpy( DST, SRC, BYTES, KIND );
 #define deviceFree( PTR ) hipFree( PTR );
+#define deviceGetLastError() hipGetLastError()
 #define deviceError_t hipError_t
 #define deviceGetErrorString    hipGetErrorString
 #define deviceMemcpyDeviceToHost hipMemcpyDeviceToHost
@@ -102,10 +104,15 @@ template< typename LAMBDA >
 void genericKernelWrapper( LAMBDA && func, bool const abortOnError = true )
 {
 #if defined(SHIVA_ENABLE_DEVICE)
+  deviceGetLastError(); // forget the errors of earlier calls
   // UNCRUSTIFY-OFF
   genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ) );
   // UNCRUSTIFY-ON
-  deviceError_t err = deviceDeviceSynchronize();
+  deviceError_t err = deviceGetLastError();
+  if ( err == deviceSuccess )
+  {
+    err = deviceDeviceSynchronize();
+  }
   if ( err != deviceSuccess )
   {
     printf( "Kernel failed: %s\n", deviceGetErrorString( err ));
@@ -159,14 +166,28 @@ void genericKernelWrapper( int const N, DATA_TYPE * const hostData, LAMBDA && fu
 {
 
 #if defined(SHIVA_ENABLE_DEVICE)
-  DATA_TYPE * deviceData;
-  deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
-  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
-  // UNCRUSTIFY-OFF
-  genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
-  // UNCRUSTIFY-ON
-  deviceError_t err = deviceDeviceSynchronize();
-  deviceMemCpy( hostData, deviceData, N * sizeof(DATA_TYPE), deviceMemcpyDeviceToHost );
+  DATA_TYPE * deviceData = nullptr;
+  deviceError_t err = deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
+  if ( err == deviceSuccess )
+  {
+    err = deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
+  }
+  if ( err == deviceSuccess )
+  {
+    deviceGetLastError(); // forget the errors of earlier calls
+    // UNCRUSTIFY-OFF
+    genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
+    // UNCRUSTIFY-ON
+    err = deviceGetLastError();
+  }
+  if ( err == deviceSuccess )
+  {
+    err = deviceDeviceSynchronize();
+  }
+  if ( err == deviceSuccess )
+  {
+    err = deviceMemCpy( hostData, deviceData, N * sizeof(DATA_TYPE), deviceMemcpyDeviceToHost );
+  }
   deviceFree( deviceData );
   if ( err != deviceSuccess )
   {
-- 
2.43.0


From b3f4f99b5ac8d1ccfbbe48ea988baafa8da4c130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 30/43] fix: the report of a failed kernel was lost in the
 abort when stdout was not a terminal

---
 include/shiva/common/pmpl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index 880b2b7..70e4404 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -115,11 +115,11 @@ void genericKernelWrapper( LAMBDA && func, bool const abortOnError = true )
   }
   if ( err != deviceSuccess )
   {
-    printf( "Kernel failed: %s\n", deviceGetErrorString( err ));
+    fprintf( stderr, "Kernel failed: %s\n", deviceGetErrorString( err ));
     if ( abortOnError )
     {
       // LCOV_EXCL_START
-      printf( "Aborting...\n" );
+      fprintf( stderr, "Aborting...\n" );
       std::abort();
       // LCOV_EXCL_STOP
     }
@@ -191,11 +191,11 @@ void genericKernelWrapper( int const N, DATA_TYPE * const hostData, LAMBDA && fu
   deviceFree( deviceData );
   if ( err != deviceSuccess )
   {
-    printf( "Kernel failed: %s\n", deviceGetErrorString( err ));
+    fprintf( stderr, "Kernel failed: %s\n", deviceGetErrorString( err ));
     if ( abortOnError )
     {
       // LCOV_EXCL_START
-      printf( "Aborting...\n" );
+      fprintf( stderr, "Aborting...\n" );
       std::abort();
       // LCOV_EXCL_STOP
     }
-- 
2.43.0


From dfbe10a96e14e81c5cca9b1fa66e02ec24aa639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 31/43] fix: the package named a wrong include directory for an
 absolute CMAKE_INSTALL_INCLUDEDIR

---
 CMakeLists.txt             | 3 ++-
 cmake/ShivaConfig.cmake.in | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index ef4ae26..b4ec074 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -115,7 +115,8 @@ write_basic_package_version_file( "${CMAKE_CURRENT_BINARY_DIR}/ShivaConfigVersio
 
 configure_package_config_file( "${CMAKE_CURRENT_LIST_DIR}/cmake/ShivaConfig.cmake.in"
                                "${CMAKE_CURRENT_BINARY_DIR}/ShivaConfig.cmake"
-                               INSTALL_DESTINATION "${CMAKE_INSTALL_LIBDIR}/cmake/Shiva" )
+                               INSTALL_DESTINATION "${CMAKE_INSTALL_LIBDIR}/cmake/Shiva"
+                               PATH_VARS CMAKE_INSTALL_INCLUDEDIR )
 
 install( FILES "${CMAKE_CURRENT_BINARY_DIR}/ShivaConfig.cmake" "${CMAKE_CURRENT_BINARY_DIR}/ShivaConfigVersion.cmake"
          DESTINATION "${CMAKE_INSTALL_LIBDIR}/cmake/Shiva" )
diff --git a/cmake/ShivaConfig.cmake.in b/cmake/ShivaConfig.cmake.in
index 5310614..ba6a88e 100644
--- a/cmake/ShivaConfig.cmake.in
+++ b/cmake/ShivaConfig.cmake.in
@@ -9,4 +9,4 @@ include(CMakeFindDependencyMacro)
 include("${CMAKE_CURRENT_LIST_DIR}/ShivaTargets.cmake")
 
 # (Optional) convenience vars
-set(Shiva_INCLUDE_DIRS "${PACKAGE_PREFIX_DIR}/@CMAKE_INSTALL_INCLUDEDIR@")
+set(Shiva_INCLUDE_DIRS "@PACKAGE_CMAKE_INSTALL_INCLUDEDIR@")
-- 
2.43.0


From d191131ee23f5ff90142664fac02c89abb86220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 32/43] fix: EqualSpacing answered coordinates for fewer than
 two points

---
 include/shiva/functions/spacing/Spacing.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/shiva/functions/spacing/Spacing.hpp b/include/shiva/functions/spacing/Spacing.hpp
index 261a384..b19ee84 100644
--- a/include/shiva/functions/spacing/Spacing.hpp
+++ b/include/shiva/functions/spacing/Spacing.hpp
@@ -39,7 +39,11 @@ struct EqualSpacing
    * @brief Returns the interval distance between points in the spacing.
    * @return The interval length between points in the spacing.
    */
-  SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE interval() { return 2.0 / (numPoints - 1); }
+  SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE interval()
+  {
+    static_assert( N >= 2, "Unsupported number of points" );
+    return 2.0 / (numPoints - 1);
+  }
 
   /**
    * @brief Returns the coordinate of a point defined by the spacing.
-- 
2.43.0


From f80c5563cdbc5c9b65774a49ff7c7ee826633913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 33/43] fix: aggregate and split dropped trailing blanks of
 directives and carriage returns

---
 scripts/aggregateOrSplit.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 19ec38e..6efb637 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -128,23 +128,24 @@ class HeaderFileManager:
                 return  # Avoid duplicate processing
             self.included.add(header_path)
 
-            with open(header_path, 'r') as file:
+            with open(header_path, 'r', newline='\n') as file:
                 output.write(f"\n\n// ===== Start of {header_path} =====\n")
                 for line in file:
                     include_match = re.match(r'\s*#\s*include\s*"([^"]+)"', line)
                     pragma_once_match = re.match(r'\s*#\s*pragma\s+once', line, re.IGNORECASE)
+                    line = line if line.endswith("\n") else line + "\n"
                     if include_match:
                         # Comment out include statements
-                        output.write(f"{self.disabled_prefix}{line.rstrip()}\n")
+                        output.write(f"{self.disabled_prefix}{line}")
                     elif pragma_once_match:
                         # Comment out #pragma once
-                        output.write(f"{self.disabled_prefix}{line.rstrip()}\n")
+                        output.write(f"{self.disabled_prefix}{line}")
                     else:
                         # Write all other lines as is
-                        output.write(line if line.endswith("\n") else line + "\n")
+                        output.write(line)
                 output.write(f"// ===== End of {header_path} =====\n")
 
-        with open(output_file, 'w') as output:
+        with open(output_file, 'w', newline='\n') as output:
             for header in headers:
                 header = os.path.abspath(header)
                 self.create_dependency_graph(header, include_paths)
@@ -172,7 +173,7 @@ class HeaderFileManager:
             headers = re.findall(r'^// ===== Start of (.+) =====$', agg_file.read(), re.MULTILINE)
         base_path = os.path.commonpath([os.path.dirname(os.path.abspath(header)) for header in headers] or [os.getcwd()])
 
-        with open(aggregated_file, 'r') as agg_file:
+        with open(aggregated_file, 'r', newline='\n') as agg_file:
             for line in agg_file:
                 start_match = re.match(r'// ===== Start of (.+) =====', line)
                 end_match = re.match(r'// ===== End of (.+) =====', line)
@@ -183,7 +184,7 @@ class HeaderFileManager:
                     current_file = start_match.group(1)
                     split_file = os.path.join(output_dir, os.path.relpath(os.path.abspath(current_file), base_path))
                     os.makedirs(os.path.dirname(split_file), exist_ok=True)
-                    output = open(split_file, 'w')
+                    output = open(split_file, 'w', newline='\n')
                 elif end_match:
                     if output:
                         output.close()
-- 
2.43.0


From 847550f92eade161d240eab70d9faf74276a8647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 34/43] fix: powers with negative exponents were 1

---
 include/shiva/common/MathUtilities.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/shiva/common/MathUtilities.hpp b/include/shiva/common/MathUtilities.hpp
index c9d1521..1e514f9 100644
--- a/include/shiva/common/MathUtilities.hpp
+++ b/include/shiva/common/MathUtilities.hpp
@@ -35,7 +35,8 @@ namespace mathUtilities
 /**
  * @brief Computes the power of a number at compile time
  * @tparam T The type of the number
- * @tparam EXPONENT The exponent
+ * @tparam EXPONENT The exponent. The power with a negative one is the reciprocal
+ * of that with its absolute value.
  * @param base The base of the power
  * @return result^EXPONENT
  */
@@ -43,6 +44,10 @@ template< typename T, int EXPONENT >
 SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE
 T pow( T const base )
 {
+  if constexpr ( EXPONENT < 0 )
+  {
+    return static_cast< T >( 1 ) / pow< T, -EXPONENT >( base );
+  }
   T result = 1;
   for ( int i = 0; i < EXPONENT; ++i )
   {
-- 
2.43.0


From 3fcc52c49d7de3ccc43a3c09cbfb1d084d1aa63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 35/43] fix: aggregate and split failed on headers that are not
 UTF-8

---
 scripts/aggregateOrSplit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 6efb637..24c5223 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -30,7 +30,7 @@ class HeaderFileManager:
         base_path = os.path.dirname(header)  # Base directory of the current header
 
         try:
-            with open(header, 'r') as file:
+            with open(header, 'r', errors='surrogateescape') as file:
                 for line in file:
                     include_match = re.match(r'\s*#\s*include\s*"([^"]+)"', line)
                     if include_match:
@@ -128,7 +128,7 @@ class HeaderFileManager:
                 return  # Avoid duplicate processing
             self.included.add(header_path)
 
-            with open(header_path, 'r', newline='\n') as file:
+            with open(header_path, 'r', newline='\n', errors='surrogateescape') as file:
                 output.write(f"\n\n// ===== Start of {header_path} =====\n")
                 for line in file:
                     include_match = re.match(r'\s*#\s*include\s*"([^"]+)"', line)
@@ -145,7 +145,7 @@ class HeaderFileManager:
                         output.write(line)
                 output.write(f"// ===== End of {header_path} =====\n")
 
-        with open(output_file, 'w', newline='\n') as output:
+        with open(output_file, 'w', newline='\n', errors='surrogateescape') as output:
             for header in headers:
                 header = os.path.abspath(header)
                 self.create_dependency_graph(header, include_paths)
@@ -169,11 +169,11 @@ class HeaderFileManager:
         output = None
 
         # The markers hold the paths the headers were read from: keep the part below their common directory.
-        with open(aggregated_file, 'r') as agg_file:
+        with open(aggregated_file, 'r', errors='surrogateescape') as agg_file:
             headers = re.findall(r'^// ===== Start of (.+) =====$', agg_file.read(), re.MULTILINE)
         base_path = os.path.commonpath([os.path.dirname(os.path.abspath(header)) for header in headers] or [os.getcwd()])
 
-        with open(aggregated_file, 'r', newline='\n') as agg_file:
+        with open(aggregated_file, 'r', newline='\n', errors='surrogateescape') as agg_file:
             for line in agg_file:
                 start_match = re.match(r'// ===== Start of (.+) =====', line)
                 end_match = re.match(r'// ===== End of (.+) =====', line)
@@ -184,7 +184,7 @@ class HeaderFileManager:
                     current_file = start_match.group(1)
                     split_file = os.path.join(output_dir, os.path.relpath(os.path.abspath(current_file), base_path))
                     os.makedirs(os.path.dirname(split_file), exist_ok=True)
-                    output = open(split_file, 'w', newline='\n')
+                    output = open(split_file, 'w', newline='\n', errors='surrogateescape')
                 elif end_match:
                     if output:
                         output.close()
-- 
2.43.0


From c121fb36f323351c6d8c8503f77161828bf6fefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 36/43] fix: compare_uncrustify failed on files that are not
 UTF-8

---
 scripts/compare_uncrustify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/compare_uncrustify.py b/scripts/compare_uncrustify.py
index d466634..54ce5f1 100644
--- a/scripts/compare_uncrustify.py
+++ b/scripts/compare_uncrustify.py
@@ -2,7 +2,7 @@ import sys
 
 def read_uncrustify_config(filename):
     config = {}
-    with open(filename, 'r') as file:
+    with open(filename, 'r', errors='surrogateescape') as file:
         for line in file:
             line = line.split('#', 1)[0].strip()  # Ignore comments
             if line:  # Ignore empty lines
@@ -48,6 +48,7 @@ if __name__ == "__main__":
     file1 = sys.argv[1]
     file2 = sys.argv[2]
 
+    sys.stdout.reconfigure(errors='surrogateescape')  # Write the bytes that were read
     common, different = compare_config_files(file1, file2)
 
     print("Common Settings:")
-- 
2.43.0


From 0fdaa090bb479bdec8ec107bc21a6585d867b8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:03 +0000
Subject: [PATCH 37/43] fix: config-build failed on host configs and arguments
 that are not UTF-8

---
 scripts/config-build.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/config-build.py b/scripts/config-build.py
index 4930feb..4382ea5 100755
--- a/scripts/config-build.py
+++ b/scripts/config-build.py
@@ -15,7 +15,7 @@ def extract_cmake_location(file_path):
     print("Extracting cmake entry from host config file ", file_path)
     if os.path.exists(file_path):
         cmake_line_prefix = "# cmake executable path: "
-        file_handle = open(file_path, "r")
+        file_handle = open(file_path, "r", errors="surrogateescape")
         content = file_handle.readlines()
         for line in content:
             if line.startswith(cmake_line_prefix):
@@ -72,6 +72,7 @@ parser.add_argument("-gvz", "--graphviz", action="store_true", help="Generate gr
 
 
 args, unknown_args = parser.parse_known_args()
+sys.stdout.reconfigure(errors="surrogateescape")  # paths and arguments need not be UTF-8
 if unknown_args:
     print("[config-build]: Passing the following unknown arguments directly to cmake... %s" % unknown_args)
 
@@ -169,7 +170,7 @@ if unknown_args:
 cmakeline += " %s/.. " % shlex.quote(scriptsdir)
 
 # Dump the cmake command to file for convenience
-cmdfile = open("%s/cmake_cmd" % buildpath, "w")
+cmdfile = open("%s/cmake_cmd" % buildpath, "w", errors="surrogateescape")
 cmdfile.write(cmakeline)
 cmdfile.close()
 import stat
-- 
2.43.0


From 9311ca55ff662b81e0d11c216fbbcdbe41ecdaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 38/43] fix: the coverage job passed when its report could not
 be delivered

---
 scripts/ci_build_and_test_in_container.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ci_build_and_test_in_container.sh b/scripts/ci_build_and_test_in_container.sh
index d034dcf..6c060b0 100755
--- a/scripts/ci_build_and_test_in_container.sh
+++ b/scripts/ci_build_and_test_in_container.sh
@@ -67,7 +67,7 @@ fi
 if [[ "$*" == *--code-coverage* ]]; then
   or_die make -j ${NPROC} VERBOSE=1
   or_die make shiva_coverage
-  cp -r ${SHIVA_BUILD_DIR}/shiva_coverage.info.cleaned /tmp/Shiva/shiva_coverage.info.cleaned
+  or_die cp -r ${SHIVA_BUILD_DIR}/shiva_coverage.info.cleaned /tmp/Shiva/shiva_coverage.info.cleaned
 fi
 
 
-- 
2.43.0


From 84b98d73aab5c9be58796f58463d86a52383a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 39/43] fix: the CI script in the container split settings with
 blanks

---
 scripts/ci_build_and_test_in_container.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/ci_build_and_test_in_container.sh b/scripts/ci_build_and_test_in_container.sh
index 6c060b0..77c0f81 100755
--- a/scripts/ci_build_and_test_in_container.sh
+++ b/scripts/ci_build_and_test_in_container.sh
@@ -36,8 +36,8 @@ fi
 SHIVA_BUILD_DIR=/tmp/build
 SHIVA_INSTALL_DIR=/tmp/install
 or_die python3 scripts/config-build.py \
-               -hc ${HOST_CONFIG} \
-               -bt ${CMAKE_BUILD_TYPE} \
+               -hc "${HOST_CONFIG}" \
+               -bt "${CMAKE_BUILD_TYPE}" \
                -bp ${SHIVA_BUILD_DIR} \
                -ip ${SHIVA_INSTALL_DIR}\
                -DENABLE_COVERAGE:BOOL=${ENABLE_COVERAGE}
-- 
2.43.0


From 289ba4f43aa61a73bdeb4a52f9d054182e91bf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 40/43] fix: the code checks passed with 256 problems, or when
 their report was not written yet

---
 cmake/Macros.cmake | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmake/Macros.cmake b/cmake/Macros.cmake
index 7fc55ec..f76b319 100644
--- a/cmake/Macros.cmake
+++ b/cmake/Macros.cmake
@@ -53,14 +53,14 @@ macro(shiva_add_code_checks)
 
     if( CPPCHECK_FOUND )
         add_test( NAME testCppCheck
-                COMMAND bash -c "make cppcheck_check 2> >(tee cppcheck.err) >/dev/null && exit $(cat cppcheck.err | wc -l)"
+                COMMAND bash -c "make cppcheck_check 2>cppcheck.err >/dev/null && test ! -s cppcheck.err || { cat cppcheck.err; exit 1; }"
                 WORKING_DIRECTORY ${CMAKE_BINARY_DIR}
                 )
     endif()
 
     if( CLANGTIDY_FOUND )
         add_test( NAME testClangTidy
-                COMMAND bash -c "make clang_tidy_check 2> >(tee tidyCheck.err) >/dev/null && exit $(cat tidyCheck.err | wc -l)"
+                COMMAND bash -c "make clang_tidy_check 2>tidyCheck.err >/dev/null && test ! -s tidyCheck.err || { cat tidyCheck.err; exit 1; }"
                 WORKING_DIRECTORY ${CMAKE_BINARY_DIR}
                 )
     endif()
-- 
2.43.0


From ef862c8ab97b0bde4eefe521a8ad73ddd8be4d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 41/43] fix: the style check was given a configuration file
 that does not exist

---
 cmake/Macros.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake/Macros.cmake b/cmake/Macros.cmake
index f76b319..b892808 100644
--- a/cmake/Macros.cmake
+++ b/cmake/Macros.cmake
@@ -47,7 +47,7 @@ macro(shiva_add_code_checks)
                         
     blt_add_code_checks( PREFIX    ${arg_PREFIX}
                          SOURCES   ${_sources}
-                         UNCRUSTIFY_CFG_FILE ${PROJECT_SOURCE_DIR}/src/uncrustify.cfg
+                         UNCRUSTIFY_CFG_FILE ${PROJECT_SOURCE_DIR}/include/uncrustify.cfg
                          CPPCHECK_FLAGS ${CPPCHECK_FLAGS}
                          )
 
-- 
2.43.0


From b4858ac8c3a8ef966ff4f22fd4b45de1287b32ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 42/43] fix: the code checks left everything out when the path
 to the sources matched an exclude

---
 cmake/Macros.cmake | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmake/Macros.cmake b/cmake/Macros.cmake
index b892808..9bf3e68 100644
--- a/cmake/Macros.cmake
+++ b/cmake/Macros.cmake
@@ -19,8 +19,9 @@ macro(shiva_add_code_checks)
         set(_sources)
         foreach(_source ${_all_sources})
             set(_to_be_excluded FALSE)
+            file(RELATIVE_PATH _relative "${CMAKE_CURRENT_SOURCE_DIR}" "${_source}")
             foreach(_exclude ${arg_EXCLUDES})
-                if (${_source} MATCHES ${_exclude})
+                if (_relative MATCHES "${_exclude}")
                     set(_to_be_excluded TRUE)
                     break()
                 endif()
-- 
2.43.0


From dbc3ebc89a5585cb8e3afaba5ad422718fc41386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:57 +0000
Subject: [PATCH 43/43] fix: edge lengths overflowed int when the bounds are
 far apart

---
 include/shiva/geometry/shapes/NCube.hpp    | 2 +-
 include/shiva/geometry/shapes/NSimplex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/geometry/shapes/NCube.hpp b/include/shiva/geometry/shapes/NCube.hpp
index 6366e17..d83ace9 100644
--- a/include/shiva/geometry/shapes/NCube.hpp
+++ b/include/shiva/geometry/shapes/NCube.hpp
@@ -173,7 +173,7 @@ public:
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE length()
   {
-    return static_cast< RealType >( MAX - MIN ) / DIVISOR;
+    return static_cast< RealType >( static_cast< long long >( MAX ) - MIN ) / DIVISOR;
   }
 
 
diff --git a/include/shiva/geometry/shapes/NSimplex.hpp b/include/shiva/geometry/shapes/NSimplex.hpp
index 5fec076..c899e22 100644
--- a/include/shiva/geometry/shapes/NSimplex.hpp
+++ b/include/shiva/geometry/shapes/NSimplex.hpp
@@ -170,7 +170,7 @@ public:
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE length()
   {
-    return static_cast< RealType >( MAX - MIN ) / DIVISOR;
+    return static_cast< RealType >( static_cast< long long >( MAX ) - MIN ) / DIVISOR;
   }
 
 
-- 
2.43.0

