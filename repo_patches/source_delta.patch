From 9b24109709daff8c6666c213cfeebe691a4fad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:42 +0000
Subject: [PATCH 001/122] fix: include top dimension in Euler characteristic

The alternating sums stopped before the highest dimension, so the result
was wrong for every complex. The persistent variant did not compile.
---
 include/aleph/persistentHomology/EulerCharacteristic.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/aleph/persistentHomology/EulerCharacteristic.hh b/include/aleph/persistentHomology/EulerCharacteristic.hh
index b85541e..76c5072 100644
--- a/include/aleph/persistentHomology/EulerCharacteristic.hh
+++ b/include/aleph/persistentHomology/EulerCharacteristic.hh
@@ -30,7 +30,7 @@ template <class SimplicialComplex> long eulerCharacteristic( const SimplicialCom
   }
 
   short s = 1;
-  for( std::size_t d = 0; d < K.dimension(); d++ )
+  for( std::size_t d = 0; d <= K.dimension(); d++ )
   {
     chi += s * cardinality[d];
     s    = s * (-1);
@@ -64,7 +64,7 @@ template <class InputIterator> long eulerCharacteristic( InputIterator begin,
   long chi = 0;
   short s  = 1;
 
-  for( std::size_t d = 0; d < D; d++ )
+  for( std::size_t d = 0; d <= D; d++ )
   {
     chi += s * betti[d];
     s   *= (-1);
@@ -98,7 +98,7 @@ template <class InputIterator> auto persistentEulerCharacteristic( InputIterator
   for( auto it = begin; it != end; ++it )
   {
     auto&& diagram = *it;
-    auto s         = std::pow( -1, it->dimension);
+    auto s         = it->dimension() % 2 == 0 ? DataType(1) : DataType(-1);
 
     for( auto&& point : diagram )
       chi += s * point.persistence();
-- 
2.43.0


From 28531a4d747dfd663eb6f1869c9b273f59593d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:42 +0000
Subject: [PATCH 002/122] fix: handle unpaired creators in diagrams of 1D
 functions

Creating a persistence diagram from a pairing and a vector of function
values threw an exception because unpaired creators have no destroyer.
---
 include/aleph/persistenceDiagrams/Calculation.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Calculation.hh b/include/aleph/persistenceDiagrams/Calculation.hh
index 0c58a8c..d15d9e3 100644
--- a/include/aleph/persistenceDiagrams/Calculation.hh
+++ b/include/aleph/persistenceDiagrams/Calculation.hh
@@ -93,7 +93,11 @@ PersistenceDiagram<DataType> makePersistenceDiagram( const PersistencePairing<In
     auto&& i = pair.first;
     auto&& j = pair.second;
 
-    D.add( functionValues.at(i), functionValues.at(j) );
+    // The destroyer index is invalid for unpaired creators
+    if( j < functionValues.size() )
+      D.add( functionValues.at(i), functionValues.at(j) );
+    else
+      D.add( functionValues.at(i) );
   }
 
   return D;
-- 
2.43.0


From 80793834c0b1ebb5a9afcf890abea9ecd643acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:55 +0000
Subject: [PATCH 003/122] fix: report degrees of isolated vertices

---
 include/aleph/topology/filtrations/Degree.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/aleph/topology/filtrations/Degree.hh b/include/aleph/topology/filtrations/Degree.hh
index 13c9be6..f299f5b 100644
--- a/include/aleph/topology/filtrations/Degree.hh
+++ b/include/aleph/topology/filtrations/Degree.hh
@@ -41,11 +41,12 @@ template <class SimplicialComplex, class OutputIterator> void degrees( const Sim
 
   for( auto&& simplex : K )
   {
-    if( simplex.dimension() != 0 )
-    {
-      for( auto&& vertex : simplex )
-        degrees[vertex] += 1;
-    }
+    // Vertices do not contribute to a degree, but they have to be stored
+    // in order to report isolated vertices as well.
+    DegreeType contribution = simplex.dimension() != 0 ? 1 : 0;
+
+    for( auto&& vertex : simplex )
+      degrees[vertex] += contribution;
   }
 
   for( auto&& pair : degrees )
-- 
2.43.0


From e92989969068859bf5fc0d14cdb08119ff491fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:44 +0000
Subject: [PATCH 004/122] fix: handle zero persistence in persistent entropy

---
 include/aleph/persistenceDiagrams/Entropy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Entropy.hh b/include/aleph/persistenceDiagrams/Entropy.hh
index e9f5193..fec0881 100644
--- a/include/aleph/persistenceDiagrams/Entropy.hh
+++ b/include/aleph/persistenceDiagrams/Entropy.hh
@@ -177,7 +177,7 @@ template <class T> T persistentEntropy( const aleph::PersistenceDiagram<T>& D )
                   [&totalPersistence] ( T persistence )
                   {
                     auto p = persistence / totalPersistence;
-                    return p * std::log2( p );
+                    return p * detail::log2( p );
                   } );
 
   return -aleph::math::accumulate_kahan_sorted( probabilities.begin(),
-- 
2.43.0


From a3005a1a3ffe36086f4403e6a0453eb7aad3b89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:44 +0000
Subject: [PATCH 005/122] fix: support degenerate extents in grid entropy

---
 include/aleph/persistenceDiagrams/Entropy.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/Entropy.hh b/include/aleph/persistenceDiagrams/Entropy.hh
index fec0881..2d8bcc5 100644
--- a/include/aleph/persistenceDiagrams/Entropy.hh
+++ b/include/aleph/persistenceDiagrams/Entropy.hh
@@ -110,8 +110,10 @@ public:
     x = x - _x0;
     y = y - _y0;
 
-    unsigned i = unsigned( x / _xOffset );
-    unsigned j = unsigned( y / _yOffset );
+    // The offset is zero if all points share the same coordinate. In this
+    // case, there is only one cell along the corresponding axis.
+    unsigned i = _xOffset > T() ? unsigned( x / _xOffset ) : 0;
+    unsigned j = _yOffset > T() ? unsigned( y / _yOffset ) : 0;
 
     return this->operator()(i,j);
   }
-- 
2.43.0


From 9d2cdccf811fc999b2c723cc8cc2842faab63721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:03 +0000
Subject: [PATCH 006/122] fix: support varying neighbourhood sizes in radius
 search

---
 include/aleph/geometry/FLANN.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/aleph/geometry/FLANN.hh b/include/aleph/geometry/FLANN.hh
index db39c67..203c7a4 100644
--- a/include/aleph/geometry/FLANN.hh
+++ b/include/aleph/geometry/FLANN.hh
@@ -96,14 +96,19 @@ public:
       return;
 
     distances.clear();
-    distances.resize( internalDistances.size(), std::vector<ElementType>( internalDistances.front().size() ) );
+    distances.resize( internalDistances.size() );
 
     {
       using size_type = typename std::vector< std::vector<ElementType> >::size_type;
 
       for( size_type row = 0; row < distances.size(); row++ )
+      {
+        // The number of neighbours may be different for each point
+        distances[row].resize( internalDistances[row].size() );
+
         for( size_type col = 0; col < distances[row].size(); col++ )
           distances[row][col] = static_cast<ElementType>( internalDistances[row][col] );
+      }
     }
 
     for( auto&& D : distances )
-- 
2.43.0


From a7d82252e1195833b07e13a595bda44ca5672f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:41 +0000
Subject: [PATCH 007/122] fix: avoid infinite recursion in division of
 indicator functions

---
 include/aleph/math/StepFunction.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 01a2674..0eb18a5 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -146,7 +146,7 @@ public:
     {
       // Note that I do not have to handle divisions by zero here
       // because only the step function is using this class.
-      return this->operator/=( 1/lambda );
+      return this->operator*=( 1/lambda );
     }
 
     IndicatorFunction operator/( I lambda ) const
-- 
2.43.0


From 5e6151d8158be278186b19eecf486e99ddffa658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:41 +0000
Subject: [PATCH 008/122] fix: compare absolute values at shared end points of
 step functions

---
 include/aleph/math/StepFunction.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 0eb18a5..32b2320 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -216,7 +216,7 @@ public:
 
       // If multiple indicator functions overlap, take the one whose
       // absolute value is largest.
-      if( std::abs( f(x) ) > value )
+      if( std::abs( f(x) ) > std::abs( value ) )
         value = f(x);
     }
 
-- 
2.43.0


From ef1ee2b915d0b50480f34770510fde6cd24c7a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:41 +0000
Subject: [PATCH 009/122] fix: check for end of range before access when
 cleaning step functions

---
 include/aleph/math/StepFunction.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 32b2320..6d11152 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -486,7 +486,7 @@ private:
 
     for( ; curr != _indicatorFunctions.end(); )
     {
-      while( curr->y() == prev->y() && curr != _indicatorFunctions.end() )
+      while( curr != _indicatorFunctions.end() && curr->y() == prev->y() )
         ++curr;
 
       indicatorFunctions.insert( IndicatorFunction( prev->a(), std::prev( curr )->b(), prev->y() ) );
-- 
2.43.0


From 46d32702b63995ea294bd8f643fa5b50089cb473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:41 +0000
Subject: [PATCH 010/122] fix: do not create interval before first event of
 indicator function

---
 .../aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh b/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
index b1bc30b..7909fe4 100644
--- a/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
+++ b/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
@@ -156,7 +156,9 @@ template <class DataType> aleph::math::StepFunction<DataType> persistenceIndicat
     // implied by the values.
     else
     {
-      f.add( previous, eventPoints.at(i).value, static_cast<DataType>( numActiveFeatures ) );
+      if( i != 0 )
+        f.add( previous, eventPoints.at(i).value, static_cast<DataType>( numActiveFeatures ) );
+
       useNextPoint = true;
     }
 
-- 
2.43.0


From 10aa1bd157e27b3234a25b337ff93a116c07ac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:44 +0000
Subject: [PATCH 011/122] fix: check for end of range when calculating
 envelopes

---
 include/aleph/persistenceDiagrams/Envelope.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Envelope.hh b/include/aleph/persistenceDiagrams/Envelope.hh
index a505bb2..64916eb 100644
--- a/include/aleph/persistenceDiagrams/Envelope.hh
+++ b/include/aleph/persistenceDiagrams/Envelope.hh
@@ -82,7 +82,7 @@ public:
     for( auto&& x : X )
     {
       auto next = std::next( it );
-      while( next->x() == x )
+      while( next != P.end() && next->x() == x )
       {
         ++next;
         ++it;
-- 
2.43.0


From 5a6ca5fa0999501c7aca00c0a468ca8cd44bc8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:44 +0000
Subject: [PATCH 012/122] fix: make in-place scalar operations of piecewise
 linear functions usable

---
 include/aleph/math/PiecewiseLinearFunction.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index 110e41e..12bf26b 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -143,7 +143,7 @@ public:
   }
 
   /** Adds a given value to all points in the image of the function */
-  PiecewiseLinearFunction& operator+=( Image lambda ) const noexcept
+  PiecewiseLinearFunction& operator+=( Image lambda ) noexcept
   {
     return this->apply( lambda, std::plus<Image>() );
   }
@@ -181,7 +181,7 @@ public:
   }
 
   /** Subtracts a given value from all points in the image of the function */
-  PiecewiseLinearFunction& operator-=( Image lambda ) const noexcept
+  PiecewiseLinearFunction& operator-=( Image lambda ) noexcept
   {
     return this->apply( lambda, std::minus<Image>() );
   }
-- 
2.43.0


From 7d70e2e9bc6c915a5a1a561dec7e0103f71e27f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:44 +0000
Subject: [PATCH 013/122] fix: permit exceptions when dividing piecewise linear
 functions by zero

---
 include/aleph/math/PiecewiseLinearFunction.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index 12bf26b..0fced6c 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -213,7 +213,7 @@ public:
   }
 
   /** Divides the given step function by a scalar value */
-  PiecewiseLinearFunction operator/( I lambda ) const noexcept
+  PiecewiseLinearFunction operator/( I lambda ) const
   {
     auto f = *this;
     f /= lambda;
-- 
2.43.0


From ffc56bd2ba5966aeebf04f7755fb9f2fbc53c312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:25 +0000
Subject: [PATCH 014/122] fix: respect zero crossings in absolute value of
 piecewise linear functions

---
 include/aleph/math/PiecewiseLinearFunction.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index 0fced6c..8b4f3a8 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -280,6 +280,11 @@ public:
   /** Calculates the absolute value of the function */
   PiecewiseLinearFunction& abs() noexcept
   {
+    // Operations on the function might have introduced new intersections
+    // with the x-axis.
+    if( !_data.empty() )
+      this->insertIntersectionPoints();
+
     for( auto&& pair : _data )
       pair.second = std::abs( pair.second );
 
-- 
2.43.0


From 6a7fe17e31527b65c4e2134a4422ee020ddb349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:25 +0000
Subject: [PATCH 015/122] fix: integrate absolute value of piecewise linear
 functions

---
 include/aleph/math/PiecewiseLinearFunction.hh | 42 +++++++++++--------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index 8b4f3a8..61eb496 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -3,6 +3,7 @@
 
 #include <aleph/math/KahanSummation.hh>
 
+#include <algorithm>
 #include <functional>
 #include <iterator>
 #include <limits>
@@ -328,32 +329,39 @@ public:
     auto previous = _data.begin();
     auto current  = std::next( _data.begin() );
 
+    // Integrates a line that connects two non-negative function values. This
+    // is an application of Cavalieri's quadrature formula.
+    auto integrate = [&p] ( Domain width, Image y1, Image y2 ) -> Image
+    {
+      // Horizontal segments. This includes segments that are horizontal up
+      // to rounding errors because the quadrature formula for lines has to
+      // divide by the difference of the function values.
+      if( std::abs( y2 - y1 ) <= std::sqrt( std::numeric_limits<Image>::epsilon() ) * std::max( y1, y2 ) )
+        return std::pow( ( y1 + y2 ) / 2, p ) * width;
+
+      // Regular lines
+      else
+        return ( std::pow( y2, p+1 ) - std::pow( y1, p+1 ) ) / ( ( y2 - y1 ) * (p+1) ) * width;
+    };
+
     while( current != _data.end() )
     {
-      // Coefficients of the line that connect the previous point and the current
-      // point.
       auto x1 = previous->first;
       auto y1 = previous->second;
       auto x2 = current->first;
       auto y2 = current->second;
-      auto m  = (y2 - y1) / (x2 - x1);
-      auto c  = y1 - m * x1;
 
-      // Evaluator for the integral. This is an application of Cavalieri's
-      // quadrature formula.
-      auto evaluator = [&]( Image x )
+      // The function intersects the x-axis, so both parts of the segment
+      // have to be handled individually.
+      if( y1 * y2 < Image() )
       {
-        // Horizontal segments
-        if( m == Image() )
-          return std::pow( c, p ) * x;
+        auto x = x1 + ( x2 - x1 ) * y1 / ( y1 - y2 );
 
-        // Regular lines
-        else
-          return std::pow( m*x + c, p+1 ) / ( m * (p+1) );
-      };
-
-      auto integral   = std::abs( evaluator( x2 ) - evaluator( x1 ) );
-      norm           += integral;
+        norm += integrate( x - x1, std::abs( y1 ), Image() );
+        norm += integrate( x2 - x, Image(), std::abs( y2 ) );
+      }
+      else
+        norm += integrate( x2 - x1, std::abs( y1 ), std::abs( y2 ) );
 
       previous = current;
       ++current;
-- 
2.43.0


From d48248a1cc69081eb02ab53f78a30a0e5e5740bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:45 +0000
Subject: [PATCH 016/122] fix: propagate weights of faces in Cech complexes

---
 include/aleph/geometry/CechComplex.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/aleph/geometry/CechComplex.hh b/include/aleph/geometry/CechComplex.hh
index d107b86..ef8c909 100644
--- a/include/aleph/geometry/CechComplex.hh
+++ b/include/aleph/geometry/CechComplex.hh
@@ -1,6 +1,8 @@
 #ifndef ALEPH_GEOMETRY_CECH_COMPLEX_HH__
 #define ALEPH_GEOMETRY_CECH_COMPLEX_HH__
 
+#include <aleph/geometry/RipsExpander.hh>
+
 #include <aleph/math/Combinations.hh>
 
 #include <aleph/topology/Simplex.hh>
@@ -88,6 +90,12 @@ template <class Container> auto buildCechComplex( const Container& container, ty
   }
 
   SimplicialComplex K( simplices.begin(), simplices.end() );
+
+  // Ensures that rounding errors in the calculation of the balls do not
+  // result in faces with larger weights than their co-faces.
+  RipsExpander<SimplicialComplex> ripsExpander;
+  K = ripsExpander.assignMaximumWeight( K );
+
   K.sort( topology::filtrations::Data<Simplex>() );
 
   return K;
-- 
2.43.0


From f12dbac5a9958c3ac3bc15089172a344efdff301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:45 +0000
Subject: [PATCH 017/122] fix: select distinct landmarks with max-min strategy

---
 include/aleph/geometry/WitnessComplex.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/aleph/geometry/WitnessComplex.hh b/include/aleph/geometry/WitnessComplex.hh
index cbb4d9f..30bc135 100644
--- a/include/aleph/geometry/WitnessComplex.hh
+++ b/include/aleph/geometry/WitnessComplex.hh
@@ -257,6 +257,9 @@ template <
   if( n > container.size() )
     throw std::out_of_range( "Number of landmarks is out of range" );
 
+  if( n == 0 )
+    return;
+
   using SizeType = decltype( container.size() );
 
   std::random_device rd;
@@ -280,6 +283,11 @@ template <
 
     for( SizeType i = 0; i < N; i++ )
     {
+      // Every point can only be selected once, even if there are multiple
+      // points with the same coordinates.
+      if( std::find( indices.begin(), indices.end(), i ) != indices.end() )
+        continue;
+
       auto min = std::numeric_limits<DataType>::max();
 
       for( auto&& landmarkIndex : indices )
-- 
2.43.0


From 9bb4850ebcf8a135e7890debc323ddbcbfc8853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:02 +0000
Subject: [PATCH 018/122] fix: limit number of neighbours in brute-force search

---
 include/aleph/geometry/BruteForce.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/geometry/BruteForce.hh b/include/aleph/geometry/BruteForce.hh
index 9e98504..a605586 100644
--- a/include/aleph/geometry/BruteForce.hh
+++ b/include/aleph/geometry/BruteForce.hh
@@ -82,6 +82,9 @@ public:
     indices.resize( this->size() );
     distances.resize( this->size() );
 
+    // There cannot be more neighbours than points
+    k = static_cast<unsigned>( std::min( IndexType(k), this->size() ) );
+
     auto D               = _container.dimension();
     DistanceFunctor dist = DistanceFunctor();
 
-- 
2.43.0


From 9f8a4f2a50ae4bd5e424b6b7834c9e9f43c82ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:02 +0000
Subject: [PATCH 019/122] fix: correct partial Hamming distance

---
 include/aleph/geometry/distances/Hamming.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/distances/Hamming.hh b/include/aleph/geometry/distances/Hamming.hh
index e573386..34bcb13 100644
--- a/include/aleph/geometry/distances/Hamming.hh
+++ b/include/aleph/geometry/distances/Hamming.hh
@@ -120,7 +120,7 @@ public:
                          const V& b,
                          int __attribute__((unused)) ) const
   {
-    return std::abs( a - b );
+    return static_cast<ResultType>( a != b );
   }
 
   /** @returns Name of functor */
-- 
2.43.0


From d2d14585df44f09c3333bbab9dafcd1c8822e966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:50 +0000
Subject: [PATCH 020/122] fix: support queries for empty cover trees

---
 include/aleph/geometry/CoverTree.hh | 30 +++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/aleph/geometry/CoverTree.hh b/include/aleph/geometry/CoverTree.hh
index 9c82af9..2bbeeb3 100644
--- a/include/aleph/geometry/CoverTree.hh
+++ b/include/aleph/geometry/CoverTree.hh
@@ -292,7 +292,9 @@ public:
   void print( std::ostream& o )
   {
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
@@ -334,7 +336,9 @@ public:
     std::multimap<long, Point> levelMap;
 
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
@@ -370,7 +374,9 @@ public:
     std::map<Point, long> levelMap;
 
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
@@ -398,7 +404,9 @@ public:
     std::vector<Point> result;
 
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
@@ -449,11 +457,13 @@ public:
   bool checkLevelInvariant() const noexcept
   {
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+
+    if( _root )
+      nodes.push( _root.get() );
 
     // Initialize the level artificially in order to simplify the code
     // below.
-    long level = _root->_level + 1;
+    long level = this->level() + 1;
 
     while( !nodes.empty() )
     {
@@ -487,7 +497,9 @@ public:
   bool checkCoveringInvariant() const noexcept
   {
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
@@ -529,7 +541,9 @@ public:
   bool checkSeparatingInvariant() const noexcept
   {
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
-- 
2.43.0


From a145caaf697b662219f0faf5a3bb064a5f272eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:33 +0000
Subject: [PATCH 021/122] fix: avoid overflow of integral distances in
 Floyd-Warshall algorithm

---
 include/aleph/topology/FloydWarshall.hh | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/FloydWarshall.hh b/include/aleph/topology/FloydWarshall.hh
index cbb9107..0c77157 100644
--- a/include/aleph/topology/FloydWarshall.hh
+++ b/include/aleph/topology/FloydWarshall.hh
@@ -59,13 +59,17 @@ template <class SimplicialComplex> auto floydWarshall( const SimplicialComplex&
 
   auto n = vertex_to_index.size();
 
+  auto infinity
+    = std::numeric_limits<DataType>::has_infinity ? std::numeric_limits<DataType>::infinity()
+                                                  : std::numeric_limits<DataType>::max();
+
   Matrix M( static_cast<VertexType>( n ) );
 
   for( VertexType i = VertexType(0); i < VertexType(n); i++ )
   {
     M(i,i) = DataType(0);
     for( auto j = i+1; j < VertexType(n); j++ )
-      M(i,j) = std::numeric_limits<DataType>::has_infinity ? std::numeric_limits<DataType>::infinity() : std::numeric_limits<DataType>::max();
+      M(i,j) = infinity;
   }
 
   for( auto&& s : K )
@@ -87,6 +91,11 @@ template <class SimplicialComplex> auto floydWarshall( const SimplicialComplex&
     {
       for( auto j = i+1; j < VertexType(n); j++ )
       {
+        // Ensures that the sum does not overflow for data types without an
+        // infinity.
+        if( M(i,k) == infinity || M(k,j) == infinity )
+          continue;
+
         if( M(i,j) > M(i,k) + M(k,j) )
           M(i,j) = M(i,k) + M(k,j);
       }
-- 
2.43.0


From 522528ef61491fb585e70b2c8c1a9612dbf80505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:36 +0000
Subject: [PATCH 022/122] fix: pass dimension of simplices to functor in
 barycentric subdivision

---
 include/aleph/topology/BarycentricSubdivision.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/BarycentricSubdivision.hh b/include/aleph/topology/BarycentricSubdivision.hh
index e5a0428..df8e703 100644
--- a/include/aleph/topology/BarycentricSubdivision.hh
+++ b/include/aleph/topology/BarycentricSubdivision.hh
@@ -181,7 +181,7 @@ public:
           // The new cone simplex needs to use the same weight as the
           // barycentre simplex.
           cone.emplace_back( Simplex( vertices.begin(), vertices.end(),
-                                      s.data() * DataType( functor( vertices.size() ) ) ) );
+                                      s.data() * DataType( functor( vertices.size() - 1 ) ) ) );
         }
 
        // Cone boundaries; required in order to ensure consistency of
@@ -198,7 +198,7 @@ public:
           // the resulting simplicial complex---it will not be used by
           // any other simplex during the subdivision.
           L.push_back( Simplex( vertices.begin(), vertices.end(),
-                                s.data() * DataType( functor( vertices.size() ) ) ) );
+                                s.data() * DataType( functor( vertices.size() - 1 ) ) ) );
         }
 
         subdivision[s] = cone;
-- 
2.43.0


From 31b57ca2adcac7cae22a70dc37f0a4cdb38db849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:12 +0000
Subject: [PATCH 023/122] fix: permit empty strata for intersection homology

---
 include/aleph/persistentHomology/PhiPersistence.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistentHomology/PhiPersistence.hh b/include/aleph/persistentHomology/PhiPersistence.hh
index 4741198..6e84cb9 100644
--- a/include/aleph/persistentHomology/PhiPersistence.hh
+++ b/include/aleph/persistentHomology/PhiPersistence.hh
@@ -271,7 +271,7 @@ auto calculateIntersectionHomology( const aleph::topology::SimplicialComplex<Sim
 
     for( auto&& x : X )
     {
-      if( !K.empty() )
+      if( !x.empty() )
       {
         minDimension = std::min( minDimension, x.dimension() );
         maxDimension = std::max( maxDimension, x.dimension() );
-- 
2.43.0


From 4971f6480125ab035c161cb8ea27b6ae4f7a085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:12 +0000
Subject: [PATCH 024/122] fix: check lower bound of dimension when querying
 perversities

---
 include/aleph/persistentHomology/PhiPersistence.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistentHomology/PhiPersistence.hh b/include/aleph/persistentHomology/PhiPersistence.hh
index 6e84cb9..f0da33e 100644
--- a/include/aleph/persistentHomology/PhiPersistence.hh
+++ b/include/aleph/persistentHomology/PhiPersistence.hh
@@ -105,7 +105,7 @@ public:
 
   int operator()( std::size_t d ) const noexcept
   {
-    if( d < _values.size() + 1 )
+    if( d >= 1 && d < _values.size() + 1 )
       return _values[ static_cast<std::size_t>( d-1 ) ];
     else
       return 0;
@@ -166,7 +166,7 @@ public:
 
   unsigned operator()( std::size_t d ) const noexcept
   {
-    if( d < _values.size() + 2 )
+    if( d >= 2 && d < _values.size() + 2 )
       return _values[ static_cast<std::size_t>( d-2 ) ];
     else
       return 0;
-- 
2.43.0


From 78506283bc6f16d82ed4adeae4c0ff4a566f3df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:12 +0000
Subject: [PATCH 025/122] fix: ensure that Goresky-MacPherson perversities
 start at zero

---
 include/aleph/persistentHomology/PhiPersistence.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/persistentHomology/PhiPersistence.hh b/include/aleph/persistentHomology/PhiPersistence.hh
index f0da33e..09efb80 100644
--- a/include/aleph/persistentHomology/PhiPersistence.hh
+++ b/include/aleph/persistentHomology/PhiPersistence.hh
@@ -146,6 +146,9 @@ public:
   template <class InputIterator> PerversityGM( InputIterator begin, InputIterator end )
     : _values( begin, end )
   {
+    if( !_values.empty() )
+      _values.front() = 0;
+
     for( std::size_t k = 1; k < _values.size(); k++ )
     {
       if( _values[k] != _values[k-1] && _values[k] != _values[k-1] + 1 )
-- 
2.43.0


From 530cf66c88885e75248dda15ef449bfdaf713f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:31 +0000
Subject: [PATCH 026/122] fix: skip indented comments when loading boundary
 matrices

---
 include/aleph/topology/BoundaryMatrix.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/BoundaryMatrix.hh b/include/aleph/topology/BoundaryMatrix.hh
index 609a89b..890689f 100644
--- a/include/aleph/topology/BoundaryMatrix.hh
+++ b/include/aleph/topology/BoundaryMatrix.hh
@@ -208,8 +208,9 @@ public:
                  std::istream_iterator<std::string>(),
                  std::back_inserter( tokens ) );
 
-      // Ignore this line if it does not contain any tokens
-      if( tokens.empty() )
+      // Ignore this line if it does not contain any tokens, or if it is
+      // an indented comment line
+      if( tokens.empty() || tokens.front().front() == '#' )
         continue;
 
       std::vector<Index> indices;
-- 
2.43.0


From 3a53318756c77b5e09c25794efb129184491eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:33 +0000
Subject: [PATCH 027/122] fix: load last point of point clouds without final
 line break

---
 include/aleph/containers/PointCloud.hh | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/include/aleph/containers/PointCloud.hh b/include/aleph/containers/PointCloud.hh
index 88438a8..715312b 100644
--- a/include/aleph/containers/PointCloud.hh
+++ b/include/aleph/containers/PointCloud.hh
@@ -233,35 +233,29 @@ template<class T> PointCloud<T> load( std::istream& in )
   if( !in )
     return PointCloud<T>();
 
-  auto lines = std::count( std::istreambuf_iterator<char>( in ),
-                           std::istreambuf_iterator<char>(),
-                           '\n' );
+  // Count all lines in the file that contain a point. This requires
+  // ignoring comments and empty lines. Else, the code below allocates
+  // many points that will remain empty.
+  std::size_t n = 0;
 
-  in.clear();
-  in.seekg( 0 );
-
-  if( lines <= 0 )
-    return PointCloud<T>();
-
-  // Recount all lines in the file, removing comments and empty lines
-  // from the calculation. Else, the code below allocates many points
-  // that will remain empty.
   {
     std::string line;
     while( std::getline( in, line ) )
     {
       line = utilities::trim( line );
-      if( line.empty() || line.front() == '#' )
-        lines -= 1;
+      if( !line.empty() && line.front() != '#' )
+        n += 1;
     }
   }
 
+  if( n == 0 )
+    return PointCloud<T>();
+
   in.clear();
   in.seekg( 0 );
 
   std::size_t i = 0;
   std::size_t d = 0;
-  std::size_t n = static_cast<std::size_t>( lines );
 
   std::string line;
 
-- 
2.43.0


From 7eff60dd7859787cbcb272e59a035ef12d14de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:33 +0000
Subject: [PATCH 028/122] fix: parse signs and exponents of values in GML files

---
 include/aleph/topology/io/GML.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 0938c24..8f8b044 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -140,7 +140,7 @@ public:
     Edge edge;
 
     std::regex reAttribute = std::regex( "([_\\|[:alpha:]]+)[[:space:]]*.*" );
-    std::regex reKeyValue  = std::regex( "([_\\|[:alpha:]]+)[[:space:]]+([[:alnum:]\\.]+)" );
+    std::regex reKeyValue  = std::regex( "([_\\|[:alpha:]]+)[[:space:]]+([[:alnum:]\\.\\+-]+)" );
     std::regex reLabel     = std::regex( "(label)[[:space:]]+\"([^\"]+)\"" );
 
     while( std::getline( in, line ) )
-- 
2.43.0


From 0b18491fca2a29cfbe2789e57b54f1399bb591e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:33 +0000
Subject: [PATCH 029/122] fix: ignore blank lines outside of the graph in GML
 files

---
 include/aleph/topology/io/GML.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 8f8b044..a7cc9a5 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -148,6 +148,9 @@ public:
       line        = trim( line );
       auto tokens = split( line );
 
+      if( line.empty() )
+        continue;
+
       // Skip comment lines. This is somewhat wasteful because I am
       // splitting the complete string even though I merely need to
       // know the first token.
-- 
2.43.0


From 107a6c876e1d01374bd18b30b348568111429430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:29 +0000
Subject: [PATCH 030/122] fix: forget node labels of previous edge list when
 reading another one

---
 include/aleph/topology/io/EdgeLists.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/aleph/topology/io/EdgeLists.hh b/include/aleph/topology/io/EdgeLists.hh
index 6a1e471..dee586e 100644
--- a/include/aleph/topology/io/EdgeLists.hh
+++ b/include/aleph/topology/io/EdgeLists.hh
@@ -62,6 +62,10 @@ public:
     using DataType          = typename Simplex::DataType;
     using VertexType        = typename Simplex::VertexType;
 
+    // Labels of a previous file must not have an influence on the IDs
+    // that are assigned in this file.
+    _nodeLabels.clear();
+
     std::string line;
 
     std::set<Simplex> vertices;
-- 
2.43.0


From 1d0ab82e8f3256ea40ea934be29fa40dfa9db430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:29 +0000
Subject: [PATCH 031/122] fix: ignore blank lines in Pajek files

---
 include/aleph/topology/io/Pajek.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index cb1d624..b388ae8 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -72,8 +72,8 @@ public:
       // white space characters in order to simplify parsing.
       line = trim( line );
 
-      // Skip comments
-      if( line.front() == '%' )
+      // Skip empty lines and comments
+      if( line.empty() || line.front() == '%' )
         continue;
 
       // 1st case: Found a keyword. This changes the parser mode and
-- 
2.43.0


From e0000c5767bda3b365df521e68d685b26aa2e03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:29 +0000
Subject: [PATCH 032/122] fix: accept signs and exponents for edge weights in
 Pajek files

---
 include/aleph/topology/io/Pajek.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index b388ae8..3f2a0ad 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -56,7 +56,7 @@ public:
     std::regex reKeyword  = std::regex( "\\*([[:alpha:]]+).*" );
     std::regex reKeyValue = std::regex( "\\*([[:alpha:]]+)[[:space:]]+([[:digit:]]+)" );
     std::regex reVertex   = std::regex( "([[:digit:]]+)[[:space:]]+\"(.*)\"");
-    std::regex reEdge     = std::regex( "([[:digit:]]+)[[:space:]]+([[:digit:]]+)[[:space:]]*([[:digit:]\\.]+)*");
+    std::regex reEdge     = std::regex( "([[:digit:]]+)[[:space:]]+([[:digit:]]+)[[:space:]]*([-+[:digit:]\\.eE]+)*");
 
     std::smatch matches;
 
-- 
2.43.0


From f4cf3aae01aba9c2de499aeaa6364382f36541c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:29 +0000
Subject: [PATCH 033/122] fix: create unlabelled vertices of Pajek graphs
 without edges

---
 include/aleph/topology/io/Pajek.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index 3f2a0ad..6c3de70 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -160,6 +160,14 @@ public:
       }
     }
 
+    // Graphs without any edges still contain all of their unlabelled
+    // vertices.
+    if( simplices.empty() )
+    {
+      for( std::size_t i = 0; i < numVertices; i++ )
+        simplices.push_back( Simplex( VertexType(i+1) ) );
+    }
+
     K = SimplicialComplex( simplices.begin(), simplices.end() );
   }
 
-- 
2.43.0


From 9dddb9d47c6016a0c2fc561b25028f3f0fd2e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:29 +0000
Subject: [PATCH 034/122] fix: skip comments and empty lines in adjacency
 matrices

---
 include/aleph/topology/io/AdjacencyMatrix.hh  | 26 +++++++++++--------
 .../topology/io/BipartiteAdjacencyMatrix.hh   | 26 ++++++++++++++-----
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/include/aleph/topology/io/AdjacencyMatrix.hh b/include/aleph/topology/io/AdjacencyMatrix.hh
index 3ef1406..6cd55e4 100644
--- a/include/aleph/topology/io/AdjacencyMatrix.hh
+++ b/include/aleph/topology/io/AdjacencyMatrix.hh
@@ -118,8 +118,7 @@ public:
     using DataType   = typename Simplex::DataType;
     using VertexType = typename Simplex::VertexType;
 
-    auto position    = in.tellg();
-    std::size_t n    = 0;
+    std::size_t n = 0;
 
     // An 'unrolled' version of all edge weights that can be read from
     // the file. They are supposed to correspond to a matrix with some
@@ -132,21 +131,26 @@ public:
       std::string line;
       while( std::getline( in, line ) )
       {
+        line = trim( line );
+
         // Skip empty lines and comments as promised
         if( line.empty() || line.front() == '#' )
           continue;
 
         ++n;
-      }
 
-      in.clear();
-      in.seekg( position );
-    }
+        for( auto&& token : splitByWhitespace( line ) )
+        {
+          bool success = false;
+          auto value   = convert<DataType>( token, success );
 
-    // FIXME: this will not work in case comments are part of the file.
-    // Drat---should probably rewrite it.
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
+          if( !success )
+            throw std::runtime_error( "Format error: unable to convert matrix entry" );
+
+          values.push_back( value );
+        }
+      }
+    }
 
     // We cannot fill an empty simplicial complex. It might be useful to
     // throw an error here, though.
@@ -187,7 +191,7 @@ public:
       // not be considered here.
       for( std::size_t x = y + 1; x < _dimension; x++ )
       {
-        auto i = static_cast<VertexType>( _dimension * y + x   );
+        auto i = _dimension * y + x;
         auto w = values[i];
 
         // Map matrix indices to the corresponding vertex indices as
diff --git a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
index 46b784e..fe67eab 100644
--- a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
@@ -72,7 +72,6 @@ public:
     using DataType   = typename Simplex::DataType;
     using VertexType = typename Simplex::VertexType;
 
-    auto position      = in.tellg();
     std::size_t height = 0;
 
     // An 'unrolled' version of all edge weights that can be read from
@@ -85,14 +84,27 @@ public:
     {
       std::string line;
       while( std::getline( in, line ) )
+      {
+        line = trim( line );
+
+        // Skip empty lines and comments as promised
+        if( line.empty() || line.front() == '#' )
+          continue;
+
         ++height;
 
-      in.clear();
-      in.seekg( position );
-    }
+        for( auto&& token : splitByWhitespace( line ) )
+        {
+          bool success = false;
+          auto value   = convert<DataType>( token, success );
+
+          if( !success )
+            throw std::runtime_error( "Format error: unable to convert matrix entry" );
 
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
+          values.push_back( value );
+        }
+      }
+    }
 
     // We cannot fill an empty simplicial complex. It might be useful to
     // throw an error here, though.
@@ -144,7 +156,7 @@ public:
     {
       for( std::size_t x = 0; x < _width; x++ )
       {
-        auto i = static_cast<VertexType>( _width * y + x   );
+        auto i = _width * y + x;
         auto w = values[i];
 
         // Map matrix indices to the corresponding vertex indices as
-- 
2.43.0


From 2ce356c0d5283843da80e125dc2b287d244751da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:29 +0000
Subject: [PATCH 035/122] fix: keep isolated nodes of sparse adjacency matrices

---
 include/aleph/topology/io/SparseAdjacencyMatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/SparseAdjacencyMatrix.hh b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
index 865e6a2..c9a7c53 100644
--- a/include/aleph/topology/io/SparseAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
@@ -104,7 +104,10 @@ public:
       // they are isolated. This requires traversing the map that maps
       // node IDs to graph IDs.
       for( auto&& pair : node_id_to_graph_id )
+      {
         vertices_.insert( pair.first );
+        vertices.insert( pair.first );
+      }
 
       IndexType index = IndexType();
 
-- 
2.43.0


From 0f4018fb380f48f961a32856fd8f3af5632b818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:29 +0000
Subject: [PATCH 036/122] fix: permit reading sparse adjacency matrices without
 graph labels

---
 include/aleph/topology/io/SparseAdjacencyMatrix.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/SparseAdjacencyMatrix.hh b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
index c9a7c53..e934b08 100644
--- a/include/aleph/topology/io/SparseAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
@@ -156,7 +156,8 @@ public:
       // Most of the time, this just degenerates into an identity
       // lookup, but in case labels are not contiguous, they will
       // be assigned correctly here.
-      labels[index] = _graphLabels.at( index );
+      if( _readGraphLabels )
+        labels[index] = _graphLabels.at( index );
 
       if( _readNodeAttributes && isValidIndex( _nodeAttributeIndex ) )
       {
-- 
2.43.0


From 775c09586e2da47510babe9a711a92f9783a8e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:29 +0000
Subject: [PATCH 037/122] fix: forget labels of previous sparse adjacency
 matrix

---
 include/aleph/topology/io/SparseAdjacencyMatrix.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/aleph/topology/io/SparseAdjacencyMatrix.hh b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
index e934b08..47c1775 100644
--- a/include/aleph/topology/io/SparseAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
@@ -116,6 +116,14 @@ public:
     }
 
     // Reading optional attributes -------------------------------------
+    //
+    // Labels and attributes of a previous file must not be reported for
+    // this file.
+
+    _graphLabels.clear();
+    _nodeLabels.clear();
+    _nodeAttributes.clear();
+    _edgeAttributes.clear();
 
     if( _readGraphLabels )
       this->readGraphLabels( filename );
-- 
2.43.0


From f3c400096828157405fe888673b5464524596f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:29 +0000
Subject: [PATCH 038/122] fix: forget labels of previous file in generic reader

---
 include/aleph/topology/io/SimplicialComplexReader.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/aleph/topology/io/SimplicialComplexReader.hh b/include/aleph/topology/io/SimplicialComplexReader.hh
index 4095c87..993fdb2 100644
--- a/include/aleph/topology/io/SimplicialComplexReader.hh
+++ b/include/aleph/topology/io/SimplicialComplexReader.hh
@@ -96,6 +96,10 @@ public:
 
     auto extension = aleph::utilities::extension( filename );
 
+    // Not all file formats support labels, so ensure that no labels of
+    // a previous file are being reported.
+    _labels.clear();
+
     // The GML parser works more or less on its own and does not make
     // use of any stored variables.
     if( extension == ".gml" )
-- 
2.43.0


From bf41962399fd7e1c3b4bae2a0c361bd90052397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:50 +0000
Subject: [PATCH 039/122] fix: use functor of generic reader for GML and HDF5
 files

---
 include/aleph/topology/io/SimplicialComplexReader.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/SimplicialComplexReader.hh b/include/aleph/topology/io/SimplicialComplexReader.hh
index 993fdb2..3c25d5d 100644
--- a/include/aleph/topology/io/SimplicialComplexReader.hh
+++ b/include/aleph/topology/io/SimplicialComplexReader.hh
@@ -105,7 +105,7 @@ public:
     if( extension == ".gml" )
     {
       GMLReader reader;
-      reader( filename, K );
+      reader( filename, K, functor );
 
       using VertexType = typename SimplicialComplex::ValueType::VertexType;
 
@@ -117,7 +117,7 @@ public:
     else if( extension == ".h5" )
     {
       HDF5SimpleDataSpaceReader reader;
-      reader( filename, K );
+      reader( filename, K, functor );
     }
 
     // The Pajek parser also works on its own and does not require any
-- 
2.43.0


From c6f0a296c445bee41b5f6734c4e67f9c33f373b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:50 +0000
Subject: [PATCH 040/122] fix: report labels of generic reader in vertex order

---
 include/aleph/topology/io/GML.hh                     |  8 +++++++-
 include/aleph/topology/io/SimplicialComplexReader.hh | 11 +++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index a7cc9a5..e8b2a4d 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -415,10 +415,16 @@ public:
     for( auto&& node : _nodes )
       nodeIDs.insert( node.id );
 
+    // Ensures that the order of vertices in the simplicial complex is
+    // used; numerical IDs do not follow the lexicographical ordering.
+    std::set<std::size_t> vertices;
+    for( auto&& node : _nodes )
+      vertices.insert( getID( nodeIDs, node.id ) );
+
     std::map<std::string, VertexType> result;
 
     for( auto&& node : _nodes )
-      result[ node.id ] = static_cast<VertexType>( std::distance( nodeIDs.begin(), nodeIDs.find( node.id ) ) );
+      result[ node.id ] = static_cast<VertexType>( std::distance( vertices.begin(), vertices.find( getID( nodeIDs, node.id ) ) ) );
 
     return result;
   }
diff --git a/include/aleph/topology/io/SimplicialComplexReader.hh b/include/aleph/topology/io/SimplicialComplexReader.hh
index 3c25d5d..56f7fca 100644
--- a/include/aleph/topology/io/SimplicialComplexReader.hh
+++ b/include/aleph/topology/io/SimplicialComplexReader.hh
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <fstream>
 #include <iterator>
+#include <map>
 #include <string>
 #include <stdexcept>
 #include <vector>
@@ -252,7 +253,14 @@ private:
     std::vector<std::string> labels;
     labels.reserve( map.size() );
 
+    // The keys of the map are textual representations of numbers, so we
+    // need to restore their numerical order.
+    std::map<unsigned long, std::string> sortedLabels;
+
     for( auto&& pair : map )
+      sortedLabels[ std::stoul( pair.first ) ] = pair.second;
+
+    for( auto&& pair : sortedLabels )
     {
       if( !pair.second.empty() )
         labels.push_back( pair.second );
@@ -263,8 +271,7 @@ private:
 
   /**
     Unrolls all stored labels (if any) of the simplicial complex into
-    a vector, following the lexicographical ordering inside a map for
-    mapping node IDs to their labels.
+    a vector, following the indices stored inside a map for node IDs.
   */
 
   template <class Map1, class Map2> std::vector<std::string> getLabels( const Map1& labelMap, const Map2& idMap )
-- 
2.43.0


From 97e4dedf967e2efd1cb821d7976d14976e3802c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:07 +0000
Subject: [PATCH 041/122] fix: handle GraphML files without XML declaration or
 contents

---
 include/aleph/topology/io/GraphML.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index 0225221..3b487e4 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -97,10 +97,12 @@ public:
       using namespace tinyxml2;
 
       XMLDocument document;
-      document.LoadFile( filename.c_str() );
+      if( document.LoadFile( filename.c_str() ) != XML_SUCCESS )
+        throw std::runtime_error( "Unable to read input file" );
 
-      auto root        = document.FirstChild();
-      auto graphml     = root->NextSiblingElement( "graphml" );
+      auto graphml = document.FirstChildElement( "graphml" );
+      if( !graphml )
+        throw std::runtime_error( "Missing root element in GraphML file" );
 
       // 1. Read optional information about keys in the graph ----------
 
-- 
2.43.0


From 7f8871b912102ca52e45a622af0596999a89f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:07 +0000
Subject: [PATCH 042/122] fix: handle empty data elements in GraphML files

---
 include/aleph/topology/io/GraphML.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index 3b487e4..822158e 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -388,7 +388,11 @@ private:
           auto key   = child->Attribute( "key" );
           auto value = child->GetText();
 
-          dict[key] = value;
+          if( !key )
+            throw std::runtime_error( "Data element must specify key" );
+
+          // Empty elements do not have any text
+          dict[key] = value ? value : "";
         }
 
         child = child->NextSiblingElement();
-- 
2.43.0


From d4d79cf2b4464802771d2cab1498fe648757cfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:07 +0000
Subject: [PATCH 043/122] fix: use row-major order for extents of HDF5 data
 spaces

---
 include/aleph/topology/io/HDF5.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/aleph/topology/io/HDF5.hh b/include/aleph/topology/io/HDF5.hh
index 4c046fc..4710324 100644
--- a/include/aleph/topology/io/HDF5.hh
+++ b/include/aleph/topology/io/HDF5.hh
@@ -98,13 +98,15 @@ public:
     std::size_t height = 0;
 
     {
-      hsize_t* dimensions = new hsize_t[ dimension ];
+      std::vector<hsize_t> dimensions( static_cast<std::size_t>( dimension ) );
 
-      dataSpace.getSimpleExtentDims( dimensions,
+      dataSpace.getSimpleExtentDims( dimensions.data(),
                                      nullptr );
 
-      width  = dimensions[0];
-      height = dimensions[1];
+      // Data are stored in row-major order, so the last dimension is the
+      // one that changes fastest.
+      height = dimensions[0];
+      width  = dimensions[1];
 
       assert( width * height == std::size_t( numVertices ) );
     }
-- 
2.43.0


From 1fcb5fd27af7b5ea67b89977f6c92d17242cb9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:15 +0000
Subject: [PATCH 044/122] fix: reduce columns of heap representation modulo two

---
 .../aleph/topology/representations/Heap.hh    | 60 ++++++++++++++-----
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/include/aleph/topology/representations/Heap.hh b/include/aleph/topology/representations/Heap.hh
index 2548c9c..0489278 100644
--- a/include/aleph/topology/representations/Heap.hh
+++ b/include/aleph/topology/representations/Heap.hh
@@ -32,31 +32,35 @@ public:
 
   std::pair<Index, bool> getMaximumIndex( Index column ) const
   {
-    if( _data.at( static_cast<std::size_t>( column ) ).empty() )
-      return std::make_pair( Index(0), false );
-    else
+    auto&& column_ = _data.at( static_cast<std::size_t>( column ) );
+
+    // Every index that occurs an even number of times vanishes modulo
+    // two, so equal indices may be removed in pairs.
+    while( !column_.empty() )
     {
-      auto&& column_ = _data.at( static_cast<std::size_t>( column ) );
-      auto index     = column_.front();
+      auto index = column_.front();
 
       std::pop_heap( column_.begin(), column_.end() );
+      column_.pop_back();
 
-      while( !column_.empty() && column_.front() == index )
+      if( column_.empty() || column_.front() != index )
       {
-        std::pop_heap( column_.begin(), column_.end() );
-        column_.pop_back();
+        column_.push_back( index );
+        std::push_heap( column_.begin(), column_.end() );
 
-        if( column_.empty() )
-          return std::make_pair( Index(0), false );
+        return std::make_pair( index, true );
       }
 
-      return std::make_pair( index, true );
+      std::pop_heap( column_.begin(), column_.end() );
+      column_.pop_back();
     }
+
+    return std::make_pair( Index(0), false );
   }
 
   void addColumns( Index source, Index target )
   {
-    auto&& sourceColumn = _data.at( static_cast<std::size_t>( source ) );
+    auto sourceColumn   = _data.at( static_cast<std::size_t>( source ) );
     auto&& targetColumn = _data.at( static_cast<std::size_t>( target ) );
 
     targetColumn.reserve( sourceColumn.size() + targetColumn.size() );
@@ -87,7 +91,22 @@ public:
 
   std::vector<Index> getColumn( Index column ) const
   {
-    return _data.at( static_cast<std::size_t>( column ) );
+    auto column_ = _data.at( static_cast<std::size_t>( column ) );
+
+    std::sort_heap( column_.begin(), column_.end() );
+
+    std::vector<Index> result;
+    result.reserve( column_.size() );
+
+    for( auto&& index : column_ )
+    {
+      if( !result.empty() && result.back() == index )
+        result.pop_back();
+      else
+        result.push_back( index );
+    }
+
+    return result;
   }
 
   void clearColumn( Index column )
@@ -115,11 +134,22 @@ public:
 
   bool operator==( const Heap& other ) const
   {
-    return _data == other._data && _dimensions == other._dimensions;
+    if( this->getNumColumns() != other.getNumColumns() || _dimensions != other._dimensions )
+      return false;
+
+    for( Index j = Index(0); j < this->getNumColumns(); j++ )
+    {
+      if( this->getColumn( j ) != other.getColumn( j ) )
+        return false;
+    }
+
+    return true;
   }
 
 private:
-  std::vector< std::vector<Index> > _data;
+  // The columns are only required to be correct modulo two. Querying
+  // the maximum index removes superfluous entries.
+  mutable std::vector< std::vector<Index> > _data;
   std::vector<Index> _dimensions;
 };
 
-- 
2.43.0


From fc9a422bfeb30efbaf953de9811efe29fec5628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:39 +0000
Subject: [PATCH 045/122] fix: skip empty lines and comments in matrix files

---
 include/aleph/topology/io/Matrix.hh | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/aleph/topology/io/Matrix.hh b/include/aleph/topology/io/Matrix.hh
index 593b829..9e0ecdb 100644
--- a/include/aleph/topology/io/Matrix.hh
+++ b/include/aleph/topology/io/Matrix.hh
@@ -4,6 +4,9 @@
 #include <algorithm>
 #include <istream>
 #include <fstream>
+#include <iterator>
+#include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -111,7 +114,7 @@ public:
   /** @overload operator()( const std::string&, SimplicialComplex&, SimplicialComplex&, Functor ) */
   template <class SimplicialComplex, class Functor> void operator()( std::istream& in, SimplicialComplex& K, Functor f )
   {
-    auto position = in.tellg();
+    std::stringstream content; // Contains all rows of the matrix
 
     std::size_t height = 0;
     std::size_t width  = 0;
@@ -122,7 +125,12 @@ public:
       std::string line;
       while( std::getline( in, line ) )
       {
-        line        = trim( line );
+        line = trim( line );
+
+        // Skip empty lines and comment lines
+        if( line.empty() || line.front() == '#' )
+          continue;
+
         auto tokens = split( line );
 
         if( width == 0 )
@@ -130,13 +138,15 @@ public:
         else if( width != tokens.size() )
           throw std::runtime_error( "Format error: number of columns must not vary" );
 
+        content << line << "\n";
+
         ++height;
       }
-
-      in.clear();
-      in.seekg( position );
     }
 
+    if( height == 0 )
+      throw std::runtime_error( "Format error: matrix does not contain any rows" );
+
     _height = height;
     _width  = width;
 
@@ -147,9 +157,12 @@ public:
     std::vector<DataType> values;
     values.reserve( _height * _width );
 
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
+    std::copy( std::istream_iterator<DataType>( content ), std::istream_iterator<DataType>(),
                std::back_inserter( values ) );
 
+    if( values.size() != _height * _width )
+      throw std::runtime_error( "Format error: unable to parse all values of the matrix" );
+
     std::vector<Simplex> simplices;
 
     // Vertices --------------------------------------------------------
-- 
2.43.0


From c7678fef47b4bf22c7e442653eba93722f0697f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:39 +0000
Subject: [PATCH 046/122] fix: accept all scalar names and data types in VTK
 files

---
 include/aleph/topology/io/VTK.hh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/aleph/topology/io/VTK.hh b/include/aleph/topology/io/VTK.hh
index b064bc5..51f41e0 100644
--- a/include/aleph/topology/io/VTK.hh
+++ b/include/aleph/topology/io/VTK.hh
@@ -128,8 +128,8 @@ public:
     // attributes are supported.
 
     std::regex rePointData( "POINT_DATA[[:space:]]+([[:digit:]]+)" );
-    std::regex reScalars( "SCALARS[[:space:]]+([[:alnum:]]+)[[:space:]]+([[:alnum:]]+)[[:space:]]*([[:digit:]]*)" );
-    std::regex reLookupTable( "LOOKUP_TABLE[[:space:]]+([[:alnum:]]+)" );
+    std::regex reScalars( "SCALARS[[:space:]]+([^[:space:]]+)[[:space:]]+([[:alnum:]_]+)[[:space:]]*([[:digit:]]*)" );
+    std::regex reLookupTable( "LOOKUP_TABLE[[:space:]]+([^[:space:]]+)" );
 
     std::vector<DataType> coordinates;
     coordinates.reserve( n*3 );
@@ -154,6 +154,11 @@ public:
 
       while( std::getline( in, line ) )
       {
+        line = trim( line );
+
+        if( line.empty() )
+          continue;
+
         if( std::regex_match( line, matches, rePointData ) )
         {
           auto sn = matches[1];
@@ -180,7 +185,6 @@ public:
         }
         else
         {
-          line         = trim( line );
           auto strings = split( line );
 
           for( auto&& value : strings )
@@ -391,7 +395,7 @@ private:
     y = std::size_t( std::stoull( sy ) );
     z = std::size_t( std::stoull( sz ) );
 
-    std::regex rePoints( "POINTS[[:space:]]+([[:digit:]]+)[[:space:]]+([[:alpha:]]+)" );
+    std::regex rePoints( "POINTS[[:space:]]+([[:digit:]]+)[[:space:]]+([[:alpha:]_]+)" );
     if( !std::regex_match( points, matches, rePoints ) )
       return false;
 
-- 
2.43.0


From 35dc3a744b44ef3ec5f761fd74e52e52d4718a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:39 +0000
Subject: [PATCH 047/122] fix: reject VTK files whose number of values does not
 match

---
 include/aleph/topology/io/VTK.hh | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/include/aleph/topology/io/VTK.hh b/include/aleph/topology/io/VTK.hh
index 51f41e0..d315280 100644
--- a/include/aleph/topology/io/VTK.hh
+++ b/include/aleph/topology/io/VTK.hh
@@ -131,23 +131,15 @@ public:
     std::regex reScalars( "SCALARS[[:space:]]+([^[:space:]]+)[[:space:]]+([[:alnum:]_]+)[[:space:]]*([[:digit:]]*)" );
     std::regex reLookupTable( "LOOKUP_TABLE[[:space:]]+([^[:space:]]+)" );
 
-    std::vector<DataType> coordinates;
-    coordinates.reserve( n*3 );
+    if( n != nx*ny*nz )
+      throw std::runtime_error( "Format error: number of points does not match dimensions" );
 
-    while( std::getline( in, line ) )
-    {
-      line         = trim( line );
-      auto strings = split( line );
-
-      for( auto&& coordinate : strings )
-        coordinates.push_back( convert<DataType>( coordinate ) );
+    std::size_t numCoordinates = 0;
 
-      if( coordinates.size() == n*3 )
-        break;
-    }
+    while( numCoordinates < n*3 && std::getline( in, line ) )
+      numCoordinates += countTokens( line );
 
     std::vector<DataType> values;
-    values.reserve( n );
 
     {
       std::smatch matches;
@@ -193,6 +185,9 @@ public:
       }
     }
 
+    if( values.size() != n )
+      throw std::runtime_error( "Format error: number of values does not match number of points" );
+
     // Create topology -------------------------------------------------
     //
     // Notice that this class only adds 0-simplices and 1-simplices to
-- 
2.43.0


From cb35364b15675ae09802f259ccba9545f668b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:39 +0000
Subject: [PATCH 048/122] fix: forget previous spectrum when reading a new one

---
 include/aleph/topology/io/FlexSpectrum.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/FlexSpectrum.hh b/include/aleph/topology/io/FlexSpectrum.hh
index ff22c86..4bb41ad 100644
--- a/include/aleph/topology/io/FlexSpectrum.hh
+++ b/include/aleph/topology/io/FlexSpectrum.hh
@@ -42,6 +42,9 @@ public:
     std::vector<DataType> intensities;
     std::vector<Simplex> simplices;
 
+    _index_to_value.clear();
+    _index_to_intensity.clear();
+
     // Read lines & create vertices ------------------------------------
     //
     // This only fills up the auxiliary data structure of the spectrum
-- 
2.43.0


From afd404f3301cd92898396ce8a4f326cbedea85d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:39 +0000
Subject: [PATCH 049/122] fix: normalize spectra that consist of a single value

---
 include/aleph/topology/io/FlexSpectrum.hh | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/include/aleph/topology/io/FlexSpectrum.hh b/include/aleph/topology/io/FlexSpectrum.hh
index 4bb41ad..4a369ff 100644
--- a/include/aleph/topology/io/FlexSpectrum.hh
+++ b/include/aleph/topology/io/FlexSpectrum.hh
@@ -75,20 +75,12 @@ public:
       ++index;
     }
 
-    // Abandon further calculations; the simplicial complex is empty or
-    // almost empty and no edges can be added.
-    if( index <= 1)
-    {
-      K = SimplicialComplex( simplices.begin(), simplices.end() );
-      return;
-    }
-
     // Create edges ----------------------------------------------------
     //
     // Creates a superlevel set filtration for the spectrum by assigning
     // each edge the *minimum* of the two function values.
 
-    for( std::size_t i = 0; i < index - 1; i++ )
+    for( std::size_t i = 0; i + 1 < index; i++ )
     {
       VertexType u = VertexType(i  );
       VertexType v = VertexType(i+1);
-- 
2.43.0


From ce8a222c1e1ab361d16264d09b3c46623ff81a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:39 +0000
Subject: [PATCH 050/122] fix: convert HDF5 data sets to native byte order

---
 include/aleph/topology/io/HDF5.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/HDF5.hh b/include/aleph/topology/io/HDF5.hh
index 4710324..4c9f670 100644
--- a/include/aleph/topology/io/HDF5.hh
+++ b/include/aleph/topology/io/HDF5.hh
@@ -240,14 +240,14 @@ private:
     {
       std::vector<double> data_( size );
 
-      dataSet.read( &data_[0], dataType );
+      dataSet.read( data_.data(), H5::PredType::NATIVE_DOUBLE );
       data.assign( data_.begin(), data_.end() );
     }
     else if( std::find( floatTypes.begin(), floatTypes.end(), dataType ) != floatTypes.end() )
     {
       std::vector<float> data_( size );
 
-      dataSet.read( &data_[0], dataType );
+      dataSet.read( data_.data(), H5::PredType::NATIVE_FLOAT );
       data.assign( data_.begin(), data_.end() );
     }
     else
-- 
2.43.0


From ce363962203b116364bca835b63be8249730d175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:00 +0000
Subject: [PATCH 051/122] fix: support triangulations whose list starts on a
 new line

---
 include/aleph/topology/io/LexicographicTriangulation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/LexicographicTriangulation.hh b/include/aleph/topology/io/LexicographicTriangulation.hh
index 22c2ce4..d33cbe4 100644
--- a/include/aleph/topology/io/LexicographicTriangulation.hh
+++ b/include/aleph/topology/io/LexicographicTriangulation.hh
@@ -121,7 +121,7 @@ private:
     auto numOpeningBrackets = std::count( block.begin(), block.end(), '[' );
     auto numClosingBrackets = std::count( block.begin(), block.end(), ']' );
 
-    return numOpeningBrackets == numClosingBrackets;
+    return numOpeningBrackets > 0 && numOpeningBrackets == numClosingBrackets;
   }
 
   /**
-- 
2.43.0


From 104d23721920fe86cfc026f6e5242e91e57426a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:00 +0000
Subject: [PATCH 052/122] fix: stop parsing triangulations with unexpected
 characters

---
 include/aleph/topology/io/LexicographicTriangulation.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/LexicographicTriangulation.hh b/include/aleph/topology/io/LexicographicTriangulation.hh
index d33cbe4..cae0b2c 100644
--- a/include/aleph/topology/io/LexicographicTriangulation.hh
+++ b/include/aleph/topology/io/LexicographicTriangulation.hh
@@ -132,7 +132,7 @@ private:
     Upon success, a non-empty simplicial complex is returned.
   */
 
-  template <class SimplicialComplex> static SimplicialComplex parseBlock( const std::string& block ) noexcept
+  template <class SimplicialComplex> static SimplicialComplex parseBlock( const std::string& block )
   {
     // Sanity check
     if( !isBlockFinished( block ) )
@@ -189,9 +189,13 @@ private:
 
       // Just skip all valid characters and try to directly proceed with
       // the parsing process.
-      if( *it == ',' || std::isspace( *it ) )
+      else if( *it == ',' || std::isspace( static_cast<unsigned char>( *it ) ) )
         ++it;
 
+      // Format error: unexpected character between two simplices
+      else
+        return {};
+
       // Look ahead until the next "]" appears. Tokenize the list of
       // vertices in between.
       if( parsingSimplex )
-- 
2.43.0


From e2987981e6e0c86978a7ed3ff8f0408d2078ded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:00 +0000
Subject: [PATCH 053/122] fix: reject PLY files with missing elements or
 invalid indices

---
 include/aleph/topology/io/PLY.hh | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/io/PLY.hh b/include/aleph/topology/io/PLY.hh
index 0fa3f85..d50fe76 100644
--- a/include/aleph/topology/io/PLY.hh
+++ b/include/aleph/topology/io/PLY.hh
@@ -272,7 +272,7 @@ public:
         dataType = utilities::trim( dataType );
         name     = utilities::trim( name );
 
-        PropertyDescriptor descriptor;
+        PropertyDescriptor descriptor = {};
         descriptor.index = propertyIndex;
 
         // List of properties require a special handling. The syntax is
@@ -323,8 +323,8 @@ public:
     }
     while( !headerParsed && in );
 
-    assert( numVertices > 0 );
-    assert( numFaces    > 0 );
+    if( numVertices == 0 || numFaces == 0 )
+      throw std::runtime_error( "Format error: Expecting vertices and faces" );
 
     using Simplex = typename SimplicialComplex::ValueType;
 
@@ -514,6 +514,12 @@ private:
         if( !converter )
           throw std::runtime_error( "Unable to parse vertex indices" );
 
+        if( i1 >= numVertices || i2 >= numVertices || i3 >= numVertices )
+          throw std::runtime_error( "Vertex index exceeds number of vertices" );
+
+        if( i1 == i2 || i1 == i3 || i2 == i3 )
+          throw std::runtime_error( "Format error: Expecting triangular faces only" );
+
         Simplex triangle( {i1,i2,i3} );
 
         // Create edges ----------------------------------------------
-- 
2.43.0


From 7d759a50f1cdd072b46308ab5d0b84fb99c5dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:17 +0000
Subject: [PATCH 054/122] fix: report that faces of binary PLY files are not
 supported

---
 include/aleph/topology/io/PLY.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/aleph/topology/io/PLY.hh b/include/aleph/topology/io/PLY.hh
index d50fe76..a814f41 100644
--- a/include/aleph/topology/io/PLY.hh
+++ b/include/aleph/topology/io/PLY.hh
@@ -8,7 +8,6 @@
 
 #include <aleph/topology/filtrations/Data.hh>
 
-#include <cassert>
 
 #include <fstream>
 #include <limits>
@@ -409,17 +408,16 @@ private:
             break;
         }
 
+        if( !in )
+          throw std::runtime_error( "Format error: Unexpected end of file" );
+
         // FIXME: Not sure whether this is legal...
         if( descriptor.name == "x" || descriptor.name == "y" || descriptor.name == "z" )
           coordinates.push_back( pv.d );
       }
     }
 
-    for( std::size_t faceIndex = 0; faceIndex < numVertices; faceIndex++ )
-    {
-    }
-
-    return {};
+    throw std::runtime_error( "Reading faces of binary PLY files is not supported" );
   }
 
 
-- 
2.43.0


From 949a9554a9f4e409edf30a32d3dc56588794c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:27 +0000
Subject: [PATCH 055/122] fix: write only the bytes of a value when reversing
 its byte order

---
 include/aleph/topology/io/PLY.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/PLY.hh b/include/aleph/topology/io/PLY.hh
index a814f41..362c2e7 100644
--- a/include/aleph/topology/io/PLY.hh
+++ b/include/aleph/topology/io/PLY.hh
@@ -105,7 +105,7 @@ template <class T> void readValue( std::ifstream& stream,
     for( std::size_t i = 0; i < bytes; i++ )
       reversedBuffer[i] = buffer[ bytes - 1 - i ];
 
-    std::copy( reversedBuffer, reversedBuffer + bytes, target );
+    std::copy( reversedBuffer, reversedBuffer + bytes, reinterpret_cast<char*>( target ) );
 
     delete[] reversedBuffer;
     delete[] buffer;
-- 
2.43.0


From 78f8395f72dbe189ccfe1871421ac57fd2b4b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:30 +0000
Subject: [PATCH 056/122] fix: recognize data type of unsigned characters in
 VTK files

---
 include/aleph/topology/io/VTK.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/VTK.hh b/include/aleph/topology/io/VTK.hh
index d315280..791129a 100644
--- a/include/aleph/topology/io/VTK.hh
+++ b/include/aleph/topology/io/VTK.hh
@@ -110,7 +110,7 @@ public:
 
     std::size_t nx, ny, nz,
                 n,
-                s;
+                s = 0;
 
     bool parsedHeader = this->parseHeader( in, nx, ny, nz, n, s );
     if( !parsedHeader )
@@ -417,7 +417,7 @@ private:
       s = sizeof(unsigned short);
     else if( st == "char" )
       s = sizeof(char);
-    else if( st == "unsigned char" )
+    else if( st == "unsigned_char" )
       s = sizeof(unsigned char);
     else if( st == "bit" )
       s = sizeof(bool);
-- 
2.43.0


From 9d3aebf58b047adde84c77bdcc3d92695a829498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:12 +0000
Subject: [PATCH 057/122] fix: reject superfluous closing brackets in GML files

---
 include/aleph/topology/io/GML.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index e8b2a4d..f7ce467 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -190,6 +190,9 @@ public:
       // Closing a new level
       else if( line == "]" )
       {
+        if( currentLevel.empty() )
+          throw std::runtime_error( "Encountered incorrectly-nested levels" );
+
         if( currentLevel.top() == "node" )
           _nodes.push_back( node );
         else if( currentLevel.top() == "edge" )
-- 
2.43.0


From 6efaa4ff6d7d631de32e0f866259ee025b637585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:12 +0000
Subject: [PATCH 058/122] fix: reject incomplete key declarations in GraphML
 files

---
 include/aleph/topology/io/GraphML.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index 822158e..f445767 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -114,6 +114,9 @@ public:
           auto name = key->Attribute( "attr.name" );
           auto type = key->Attribute( "for" );
 
+          if( !id || !name || !type )
+            throw std::runtime_error( "Key element must specify ID, name, and type" );
+
           // It makes sense to switch these two items because we use the
           // name, e.g. 'weight', to look up the ID, e.g. 'id0'.
           if( std::string( type ) == "node" )
-- 
2.43.0


From 5cb51ce179ec15670d75c4204d5a25fc2a94fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:12 +0000
Subject: [PATCH 059/122] fix: avoid exponential matching of edge weights in
 Pajek files

---
 include/aleph/topology/io/Pajek.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index 6c3de70..dfef2e5 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -56,7 +56,7 @@ public:
     std::regex reKeyword  = std::regex( "\\*([[:alpha:]]+).*" );
     std::regex reKeyValue = std::regex( "\\*([[:alpha:]]+)[[:space:]]+([[:digit:]]+)" );
     std::regex reVertex   = std::regex( "([[:digit:]]+)[[:space:]]+\"(.*)\"");
-    std::regex reEdge     = std::regex( "([[:digit:]]+)[[:space:]]+([[:digit:]]+)[[:space:]]*([-+[:digit:]\\.eE]+)*");
+    std::regex reEdge     = std::regex( "([[:digit:]]+)[[:space:]]+([[:digit:]]+)[[:space:]]*([-+[:digit:]\\.eE]+)?");
 
     std::smatch matches;
 
-- 
2.43.0


From 91025a776ee6442882ac2d971ac6e5e2a6627a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:12 +0000
Subject: [PATCH 060/122] fix: do not allocate memory for vertices before
 reading them

---
 include/aleph/topology/io/Pajek.hh | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index dfef2e5..e5c56aa 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -90,8 +90,6 @@ public:
 
           numVertices = std::stoul( matches[2] );
           mode        = Mode::Vertices;
-
-          simplices.reserve( numVertices );
         }
         else if( name == "edges" || name == "arcs" )
           mode = Mode::Edges;
-- 
2.43.0


From 9fea7aadcb9548c663ded0e767b33fca6bc989a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:12 +0000
Subject: [PATCH 061/122] fix: detect missing information about nodes and edges
 of sparse matrices

---
 include/aleph/topology/io/SparseAdjacencyMatrix.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/SparseAdjacencyMatrix.hh b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
index 47c1775..3407961 100644
--- a/include/aleph/topology/io/SparseAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
@@ -109,6 +109,9 @@ public:
         vertices.insert( pair.first );
       }
 
+      if( vertices_.size() != node_id_to_graph_id.size() )
+        throw std::runtime_error( "Format error: every node must belong to a graph" );
+
       IndexType index = IndexType();
 
       for( auto&& id : vertices_ )
@@ -170,7 +173,7 @@ public:
       if( _readNodeAttributes && isValidIndex( _nodeAttributeIndex ) )
       {
         auto&& index = node_id_to_index[vertex];
-        s.setData( static_cast<DataType>( _nodeAttributes[index][ _nodeAttributeIndex ] ) );
+        s.setData( static_cast<DataType>( _nodeAttributes.at( index ).at( _nodeAttributeIndex ) ) );
       }
 
       K.push_back( s );
@@ -192,7 +195,7 @@ public:
       auto s       = Simplex( {u,v} );
 
       if( _readEdgeAttributes && isValidIndex( _edgeAttributeIndex ) )
-        s.setData( static_cast<DataType>( _edgeAttributes[i][ _edgeAttributeIndex ] ) );
+        s.setData( static_cast<DataType>( _edgeAttributes.at( i ).at( _edgeAttributeIndex ) ) );
 
       K.push_back( s );
     }
-- 
2.43.0


From 652faf556d1886e7f81b96efebfff9e67c345cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:12 +0000
Subject: [PATCH 062/122] fix: reject malformed JSON documents

---
 include/aleph/persistenceDiagrams/io/JSON.hh | 21 +++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/io/JSON.hh b/include/aleph/persistenceDiagrams/io/JSON.hh
index 2065ec0..c57b61b 100644
--- a/include/aleph/persistenceDiagrams/io/JSON.hh
+++ b/include/aleph/persistenceDiagrams/io/JSON.hh
@@ -10,6 +10,7 @@
 #include <fstream>
 #include <istream>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 
 #include <map>
@@ -116,11 +117,26 @@ template <class T> std::vector< aleph::PersistenceDiagram<T> > readJSON( std::is
 
   std::vector<PersistenceDiagram> persistenceDiagrams;
 
-  if( !document.HasMember( "diagrams" ) )
+  if( document.HasParseError() )
+    throw std::runtime_error( "Unable to parse JSON document" );
+
+  if( !document.IsObject() || !document.HasMember( "diagrams" ) || !document["diagrams"].IsArray() )
     throw std::runtime_error( "Unable to find array of persistence diagrams" );
 
+  auto hasUnsigned = [] ( const rapidjson::Value& value, const char* name )
+  {
+    return value.HasMember( name ) && value[name].IsUint();
+  };
+
   for( auto&& diagram : document["diagrams"].GetArray() )
   {
+    if(    !diagram.IsObject()
+        || !hasUnsigned( diagram, "dimension" ) || !hasUnsigned( diagram, "betti" ) || !hasUnsigned( diagram, "size" )
+        || !diagram.HasMember( "diagram" ) || !diagram["diagram"].IsArray() )
+    {
+      throw std::runtime_error( "Unable to parse persistence diagram" );
+    }
+
     auto dimension = diagram["dimension"].GetUint();
     auto betti     = diagram["betti"].GetUint();
     auto size      = diagram["size"].GetUint();
@@ -130,6 +146,9 @@ template <class T> std::vector< aleph::PersistenceDiagram<T> > readJSON( std::is
 
     for( auto&& point : diagram["diagram"].GetArray() )
     {
+      if( !point.IsArray() || point.Size() != 2 || !point[0].IsString() || !point[1].IsString() )
+        throw std::runtime_error( "Unable to parse point of persistence diagram" );
+
       auto x  = aleph::utilities::convert<T>( point[0].GetString() );
       auto y  = aleph::utilities::convert<T>( point[1].GetString() );
 
-- 
2.43.0


From ea1176a55231f4c58ba954382bbe38b7c5c7d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:12 +0000
Subject: [PATCH 063/122] fix: report errors in HDF5 files as standard
 exceptions

---
 include/aleph/topology/io/HDF5.hh | 54 +++++++++++++++++++------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/include/aleph/topology/io/HDF5.hh b/include/aleph/topology/io/HDF5.hh
index 4c9f670..38e14d4 100644
--- a/include/aleph/topology/io/HDF5.hh
+++ b/include/aleph/topology/io/HDF5.hh
@@ -81,6 +81,40 @@ public:
   template <class SimplicialComplex, class Functor> void operator()( const std::string& filename, SimplicialComplex& K, Functor f )
   {
 #ifdef ALEPH_WITH_HDF5
+    // Exceptions of the library do not use any standard exception class,
+    // so they have to be converted.
+    try
+    {
+      this->load( filename, K, f );
+    }
+    catch( const H5::Exception& e )
+    {
+      throw std::runtime_error( "Unable to read input file: " + e.getDetailMsg() );
+    }
+#else
+    (void) filename;
+    (void) K;
+    (void) f;
+
+    throw std::runtime_error( "Missing dependency HDF5 to use this reader" );
+#endif
+  }
+
+  // Getters -----------------------------------------------------------
+
+  std::string groupName() const noexcept   { return _groupName; }
+  std::string dataSetName() const noexcept { return _dataSetName; }
+
+  // Setters -----------------------------------------------------------
+
+  void setGroupName( const std::string& name ) noexcept   { _groupName = name;   }
+  void setDataSetName( const std::string& name ) noexcept { _dataSetName = name; }
+
+private:
+
+#ifdef ALEPH_WITH_HDF5
+  template <class SimplicialComplex, class Functor> void load( const std::string& filename, SimplicialComplex& K, Functor f )
+  {
     using namespace H5;
 
     H5File file( filename, H5F_ACC_RDONLY );
@@ -194,34 +228,14 @@ public:
     }
 
     K = SimplicialComplex( simplices.begin(), simplices.end() );
-#else
-    (void) filename;
-    (void) K;
-    (void) f;
-
-    throw std::runtime_error( "Missing dependency HDF5 to use this reader" );
-#endif
   }
 
-  // Getters -----------------------------------------------------------
-
-  std::string groupName() const noexcept   { return _groupName; }
-  std::string dataSetName() const noexcept { return _dataSetName; }
-
-  // Setters -----------------------------------------------------------
-
-  void setGroupName( const std::string& name ) noexcept   { _groupName = name;   }
-  void setDataSetName( const std::string& name ) noexcept { _dataSetName = name; }
-
-private:
-
   /**
     Auxiliary function for reading data from an HDF5 file and *directly*
     into a vector. This function does not perform additional type checks
     but merely attempts a direct conversion.
   */
 
-#ifdef ALEPH_WITH_HDF5
   template <class T> std::vector<T> read( const H5::DataSet& dataSet, std::size_t size )
   {
     std::vector<T> data;
-- 
2.43.0


From 554c43f576122150e1961a70cb9a6aacd0adee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:28 +0000
Subject: [PATCH 064/122] fix: permit adding intervals to step functions to
 fail

---
 include/aleph/math/StepFunction.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 6d11152..f7e833f 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -172,7 +172,7 @@ public:
   };
 
   /** Adds a new indicator function to the step function */
-  void add( D a, D b, I y ) noexcept
+  void add( D a, D b, I y )
   {
     _indicatorFunctions.insert( IndicatorFunction(a,b,y) );
   }
-- 
2.43.0


From 736af517bae64fb4f7e94286234675cd9fcfe117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:14 +0000
Subject: [PATCH 065/122] fix: report all faces of a mesh

Faces were looked up via one half-edge per vertex. Faces that are not the
face of such a half-edge went missing, and isolated vertices, which have
no half-edge, resulted in undefined behaviour.
---
 include/aleph/topology/Mesh.hh | 37 +++++++++-------------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 8a1b4ee..799aa76 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -121,22 +121,10 @@ public:
   // TODO: Better return type?
   std::vector< std::vector<Index> > faces() const noexcept
   {
-    std::unordered_set<FacePointer> faces;
-
-    for( auto&& pair : _vertices )
-    {
-      auto&& vertex = pair.second;
-      auto&& edge   = vertex->edge;
-      auto&& face   = edge->face;
-
-      if( face )
-        faces.insert( face );
-    }
-
     std::vector< std::vector<Index> > results;
-    results.reserve( faces.size() );
+    results.reserve( _faces.size() );
 
-    for( auto&& face : faces )
+    for( auto&& face : _faces )
       results.push_back( face->vertices() );
 
     return results;
@@ -144,19 +132,7 @@ public:
 
   std::size_t numFaces() const noexcept
   {
-    std::unordered_set<FacePointer> faces;
-
-    for( auto&& pair : _vertices )
-    {
-      auto&& vertex = pair.second;
-      auto&& edge   = vertex->edge;
-      auto&& face   = edge->face;
-
-      if( face )
-        faces.insert( face );
-    }
-
-    return faces.size();
+    return _faces.size();
   }
 
   // Mesh modification -------------------------------------------------
@@ -270,6 +246,8 @@ public:
       edge->prev = *prev;
     }
 
+    _faces.push_back( face );
+
     // Extend boundary -------------------------------------------------
     //
     // Traverse all vertices whose paired edges have an empty face. Any
@@ -579,10 +557,13 @@ private:
 
   /**
     Stores all vertex pointers. This is sufficient to store the
-    complete mesh.
+    half-edges of the mesh.
   */
 
   std::unordered_map<Index, VertexPointer> _vertices;
+
+  /** Stores all faces in the order in which they were added */
+  std::vector<FacePointer> _faces;
 };
 
 } // namespace topology
-- 
2.43.0


From fdccaba0e67da23e6fa681b05a740564b60dd1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:14 +0000
Subject: [PATCH 066/122] fix: include all faces of a boundary vertex in its
 star

The traversal around a vertex stopped as soon as it reached the boundary
of the mesh.
---
 include/aleph/topology/Mesh.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 799aa76..9dfef6f 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -502,11 +502,13 @@ private:
     auto edge = v.edge;
     do
     {
-      if( edge && edge->face )
-        faces.push_back( edge->face );
-      else
+      if( !edge )
         break;
 
+      // Half-edges on the boundary do not have a face
+      if( edge->face )
+        faces.push_back( edge->face );
+
       edge = edge->pair->next;
     }
     while( edge != v.edge );
-- 
2.43.0


From dd7e265199d54be55658568c5de48aa3194c0136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:14 +0000
Subject: [PATCH 067/122] fix: use all edges for counting connected components
 of a mesh

Only a single edge per vertex was used, so that components were counted
multiple times. Moreover, isolated vertices do not have an edge.
---
 include/aleph/topology/Mesh.hh | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 9dfef6f..ce10bf2 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -437,13 +437,11 @@ public:
 
     for( auto&& vertex : vertices )
     {
-      auto&& v      = _vertices.at( vertex );
-      auto&& e      = v->edge;
-      auto&& source = e->source()->id;
-      auto&& target = e->target()->id;
+      auto&& v = _vertices.at( vertex );
 
       // Actually, the order does not matter one bit here...
-      uf.merge( target, source );
+      for( auto&& neighbour : this->getNeighbours( *v ) )
+        uf.merge( neighbour->id, vertex );
     }
 
     std::vector<Index> roots;
-- 
2.43.0


From 3a59e6698019696b4b64cd12dfbdb5712b847c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:14 +0000
Subject: [PATCH 068/122] fix: assign unused vertex IDs in meshes

An automatically-assigned ID could coincide with the largest ID that was
specified by the client.
---
 include/aleph/topology/Mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index ce10bf2..bce3534 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -142,7 +142,7 @@ public:
   {
     Vertex v;
 
-    v.id   = id == std::numeric_limits<Index>::max() ? std::max( _vertices.size(), _largestVertexID ) : id;
+    v.id   = id == std::numeric_limits<Index>::max() ? ( _vertices.empty() ? Index() : _largestVertexID + 1 ) : id;
     v.x    = x;
     v.y    = y;
     v.z    = z;
-- 
2.43.0


From 8bc6cb8cfee421bb3462e942402c8181fc23b33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:14 +0000
Subject: [PATCH 069/122] fix: permit adding faces of a mesh in any order

The boundary could only be traversed if every vertex was contained in at
most one fan of faces. Otherwise, half-edges were lost or the traversal
did not terminate.
---
 include/aleph/topology/Mesh.hh | 94 +++++++++++++++-------------------
 1 file changed, 40 insertions(+), 54 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index bce3534..27ffc15 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -98,6 +98,10 @@ public:
     Data     data = Data();
 
     HalfEdgePointer edge;
+
+    // Stores all outgoing half-edges. In contrast to traversing the
+    // half-edges around the vertex, this does not require links.
+    std::vector<HalfEdgePointer> edges;
   };
 
   // Mesh attributes ---------------------------------------------------
@@ -204,6 +208,9 @@ public:
 
         if( !target->edge )
           target->edge = pair;
+
+        source->edges.push_back( edge );
+        target->edges.push_back( pair );
       }
 
       // Ensures that the first edge that is specified for the new face
@@ -250,43 +257,42 @@ public:
 
     // Extend boundary -------------------------------------------------
     //
-    // Traverse all vertices whose paired edges have an empty face. Any
-    // of these edges is part of the boundary face.
-
-    for( auto&& pair : _vertices )
+    // Half-edges with an empty face are part of the boundary. They may
+    // only have changed for the vertices of the new face. The faces of
+    // a vertex form one or more fans, each of which has a half-edge on
+    // the boundary that enters the vertex, and one that leaves it. The
+    // fans have to be linked such that it is possible to traverse all
+    // of them.
+
+    for( auto&& edge : edges )
     {
-      auto&& vertex = pair.second;
-
-      if( !vertex->edge || vertex->edge->pair->face )
-        continue;
+      auto&& vertex = edge->target();
 
-      auto curr = vertex->edge->target();
-      auto edge = vertex->edge->pair;
+      std::vector<HalfEdgePointer> incoming;
+      std::vector<HalfEdgePointer> outgoing;
 
-      do
+      for( auto&& e : vertex->edges )
       {
-        assert( !edge->face );
-        auto edges = this->getEdges( *curr );
-
-        for( auto&& e : edges )
-        {
-          if( !e->pair->face )
-          {
-            e->pair->next = edge;
-            edge->prev    = e->pair;
-
-            edge          = e->pair;
-            curr          = e->pair->pair->target();
-            break;
-          }
-        }
+        if( e->pair->face )
+          continue;
+
+        incoming.push_back( e->pair );
+
+        // Traverse the fan in order to find its other half-edge on the
+        // boundary.
+        auto last = e;
+        while( last->face )
+          last = last->prev->pair;
+
+        outgoing.push_back( last );
       }
-      while( curr != vertex );
 
-      // Close the loop around the boundary face by adding a pointer to
-      // the identified edge.
-      vertex->edge->pair->next = edge;
-      edge->prev               = vertex->edge->pair;
+      for( std::size_t i = 0; i < incoming.size(); i++ )
+      {
+        auto&& next       = outgoing[ (i+1) % outgoing.size() ];
+        incoming[i]->next = next;
+        next->prev        = incoming[i];
+      }
     }
   }
 
@@ -472,26 +478,6 @@ private:
     return neighbours;
   }
 
-  /** Gets all edges that are incident on a given vertex. */
-  std::vector<HalfEdgePointer> getEdges( const Vertex& v ) const noexcept
-  {
-    std::vector<HalfEdgePointer> edges;
-
-    auto edge = v.edge;
-    do
-    {
-      if( edge )
-        edges.push_back( edge );
-      else
-        break;
-
-      edge = edge->pair->next;
-    }
-    while( edge != v.edge );
-
-    return edges;
-  }
-
   /** Gets all faces that are incident on a given vertex */
   std::vector<FacePointer> getFaces( const Vertex& v ) const noexcept
   {
@@ -521,9 +507,9 @@ private:
 
   HalfEdgePointer getEdge( Index u, Index v ) const noexcept
   {
-    auto source = _vertices.at(u);           // Edge source vertex
-    auto target = _vertices.at(v);           // Edge target vertex
-    auto edges  = this->getEdges( *source ); // Incident edges
+    auto source  = _vertices.at(u);          // Edge source vertex
+    auto target  = _vertices.at(v);          // Edge target vertex
+    auto&& edges = source->edges;            // Incident edges
 
     auto itEdge = std::find_if( edges.begin(), edges.end(),
                                 [&source, &target] ( const HalfEdgePointer& edge )
-- 
2.43.0


From f511c041cb206304d5c22afb007afa085ca3f77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:04 +0000
Subject: [PATCH 070/122] fix: scale compensation of Kahan sums

Multiplying or dividing the sum did not affect the compensation term, so
that it was of the wrong magnitude for all subsequent values.
---
 include/aleph/math/KahanSummation.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/aleph/math/KahanSummation.hh b/include/aleph/math/KahanSummation.hh
index a94e46c..dd800aa 100644
--- a/include/aleph/math/KahanSummation.hh
+++ b/include/aleph/math/KahanSummation.hh
@@ -40,12 +40,14 @@ public:
   KahanSummation& operator*= ( T v )
   {
     _sum *= v;
+    _c   *= v;
     return *this;
   }
 
   KahanSummation& operator/= ( T v )
   {
     _sum /= v;
+    _c   /= v;
     return *this;
   }
 
-- 
2.43.0


From dbd949240f474d9228861387bbc640dc44681228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:04 +0000
Subject: [PATCH 071/122] fix: copies of empty symmetric matrices are empty

The check also required the absence of allocated storage, which does not
hold for copies, or for matrices with zero rows.
---
 include/aleph/math/SymmetricMatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/SymmetricMatrix.hh b/include/aleph/math/SymmetricMatrix.hh
index 4df3104..8b3f5b0 100644
--- a/include/aleph/math/SymmetricMatrix.hh
+++ b/include/aleph/math/SymmetricMatrix.hh
@@ -138,7 +138,7 @@ public:
   /** Checks whether the matrix is empty */
   bool empty() const noexcept
   {
-    return _numRows == 0 && _size == 0 && _data == nullptr;
+    return _numRows == 0;
   }
 
 private:
-- 
2.43.0


From 7c2ef90ef3432aa295b49b175eb351db8e20a037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:04 +0000
Subject: [PATCH 072/122] fix: normalize principal components by number of
 samples

The squared singular values are supposed to be the eigenvalues of the
sample covariance matrix, but the data were scaled by their dimension.
---
 include/aleph/math/PrincipalComponentAnalysis.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aleph/math/PrincipalComponentAnalysis.hh b/include/aleph/math/PrincipalComponentAnalysis.hh
index ef7892f..5c02134 100644
--- a/include/aleph/math/PrincipalComponentAnalysis.hh
+++ b/include/aleph/math/PrincipalComponentAnalysis.hh
@@ -60,7 +60,8 @@ public:
       M.row( Index(row) ) = Vector::Map( &data[row][0], Index(m) );
 
     M  = M.rowwise() - M.colwise().mean();
-    M /= std::sqrt( static_cast<T>( m ) );
+    if( n > 1 )
+      M /= std::sqrt( static_cast<T>( n - 1 ) );
 
     Eigen::JacobiSVD<Matrix> svd( M, Eigen::ComputeThinV );
 
-- 
2.43.0


From f0d02f69981b2e8675df94116645c8f21490514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:04 +0000
Subject: [PATCH 073/122] fix: permit Euclidean norm for density estimation

The norm attempted to return a vector and could not be used.
---
 include/aleph/math/KernelDensityEstimator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/math/KernelDensityEstimator.hh b/include/aleph/math/KernelDensityEstimator.hh
index 4ce6321..9067ddc 100644
--- a/include/aleph/math/KernelDensityEstimator.hh
+++ b/include/aleph/math/KernelDensityEstimator.hh
@@ -93,12 +93,12 @@ public:
 class Euclidean
 {
 public:
-  template <class T> T operator()( T value ) const
+  template <class T> typename T::value_type operator()( const T& value ) const
   {
     auto squaredNorm
       = std::inner_product( std::begin( value ), std::end( value ),
                             std::begin( value ),
-                            T() );
+                            typename T::value_type() );
 
     return std::sqrt( squaredNorm );
   }
-- 
2.43.0


From 65fd7d8b127ce4ffc69179bc56fae56362945490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:04 +0000
Subject: [PATCH 074/122] fix: sign of the centre of algebraic spheres

The centre was reflected in the origin.
---
 include/aleph/math/AlgebraicSphere.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/AlgebraicSphere.hh b/include/aleph/math/AlgebraicSphere.hh
index c60607e..fb6d733 100644
--- a/include/aleph/math/AlgebraicSphere.hh
+++ b/include/aleph/math/AlgebraicSphere.hh
@@ -51,7 +51,7 @@ public:
       std::transform( c.begin(), c.end(), c.begin(),
         [&s] ( T x )
         {
-          return x / (2*s);
+          return -x / (2*s);
         }
       );
 
-- 
2.43.0


From 0c97379ad86bc0e6c6794e68421ac23488f3e44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:04 +0000
Subject: [PATCH 075/122] fix: comparison of non-finite values in allclose

Ranges that contain NaN or infinities of different signs were considered
to be close.
---
 include/aleph/utilities/ContainerOperators.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/aleph/utilities/ContainerOperators.hh b/include/aleph/utilities/ContainerOperators.hh
index f4b65ed..e7a0afc 100644
--- a/include/aleph/utilities/ContainerOperators.hh
+++ b/include/aleph/utilities/ContainerOperators.hh
@@ -114,7 +114,13 @@ template <class InputIterator1, class InputIterator2> bool allclose(
 
   for( ; it1 != end1 && it2 != end2; ++it1, ++it2 )
   {
-    if( double( std::abs( *it1 -  *it2 ) ) > ( atol + rtol * std::abs( double( *it2 ) ) ) )
+    if( *it1 == *it2 )
+      continue;
+
+    auto difference = double( std::abs( *it1 - *it2 ) );
+
+    // This also rejects infinite values of different signs and `NaN`
+    if( !std::isfinite( difference ) || difference > ( atol + rtol * std::abs( double( *it2 ) ) ) )
       return false;
   }
 
-- 
2.43.0


From 7da358a8f51ad3c4c36822a8df28f9d8d348a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:06 +0000
Subject: [PATCH 076/122] fix: eccentricity of single points

The maximum of an empty range was dereferenced.
---
 include/aleph/containers/DataDescriptors.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/containers/DataDescriptors.hh b/include/aleph/containers/DataDescriptors.hh
index 96a0da6..268a7b2 100644
--- a/include/aleph/containers/DataDescriptors.hh
+++ b/include/aleph/containers/DataDescriptors.hh
@@ -77,7 +77,7 @@ template <class Distance, class Container> std::vector<double> eccentricities( c
       eccentricity = aleph::math::accumulate_kahan( distances.begin(), distances.end(), 0.0 );
       eccentricity = std::pow( eccentricity, 1.0 / order );
     }
-    else
+    else if( !distances.empty() )
       eccentricity = *std::max_element( distances.begin(), distances.end() );
 
     eccentricities.push_back( eccentricity );
-- 
2.43.0


From 2f1ebbb62d206405747ba337bf237879ba4755fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:18 +0000
Subject: [PATCH 077/122] fix: pseudo-inverse of the Laplacian

The constant matrix was calculated with an integer division, making it
zero, so that the inverse of a singular matrix was calculated.
---
 include/aleph/geometry/HeatKernel.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index 8b5b3bd..37a3c27 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -149,7 +149,7 @@ template <class SimplicialComplex> auto pinvWeightedLaplacianMatrix( const Simpl
   using Simplex   = typename SimplicialComplex::ValueType;
   using DataType  = typename Simplex::DataType;
 
-  Matrix M = Matrix::Constant( L.rows(), L.cols(), static_cast<DataType>( 1/ n ) );
+  Matrix M = Matrix::Constant( L.rows(), L.cols(), static_cast<DataType>( 1 ) / static_cast<DataType>( n ) );
 
   return (M+L).inverse() - M;
 }
-- 
2.43.0


From ac628618f2adef435f4f073e48e5368e24f46f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:18 +0000
Subject: [PATCH 078/122] fix: determinant of the heat kernel

The product was initialized with zero and hence always zero.
---
 include/aleph/geometry/HeatKernel.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index 37a3c27..2b475c6 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -343,7 +343,7 @@ public:
 
   T determinant( T t) const
   {
-    T result = T();
+    T result = T(1);
 
     for( auto&& eigenvalue : _eigenvalues )
       result = result * std::exp( -t * eigenvalue );
-- 
2.43.0


From 5413015d50481e76bd151efa8c56f947c9bcc95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:18 +0000
Subject: [PATCH 079/122] fix: evaluate heat kernel for all vertices

The eigenvectors are row vectors, so that the product was a scalar, which
was then added to an empty vector.
---
 include/aleph/geometry/HeatKernel.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index 2b475c6..2697ddf 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -238,14 +238,15 @@ public:
   {
 #ifdef ALEPH_WITH_EIGEN
 
-    Vector result = Vector();
+    auto n        = _eigenvectors.empty() ? IndexType() : _eigenvectors.front().size();
+    Matrix result = Matrix::Zero( n, n );
 
     for( std::size_t k = 0; k < _eigenvalues.size(); k++ )
     {
       auto&& lk  = std::exp( -t * _eigenvalues[k] );
       auto&& uk = _eigenvectors[k];
 
-      result += lk * uk * uk.transpose();
+      result += lk * uk.transpose() * uk;
     }
 
     return std::vector<T>( result.data(), result.data() + result.size() );
-- 
2.43.0


From 5dc82a91b58dac70b4c6dfacb7a00a103a2776d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:18 +0000
Subject: [PATCH 080/122] fix: simplices are not parallel to themselves

Simplices without co-faces were counted as their own neighbour, resulting
in a curvature that is too small.
---
 include/aleph/topology/CombinatorialCurvature.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/CombinatorialCurvature.hh b/include/aleph/topology/CombinatorialCurvature.hh
index 9aa199d..4e7d7bf 100644
--- a/include/aleph/topology/CombinatorialCurvature.hh
+++ b/include/aleph/topology/CombinatorialCurvature.hh
@@ -57,7 +57,8 @@ template <class SimplicialComplex> bool parallelNeighbours( const SimplicialComp
                                                             const typename SimplicialComplex::ValueType& s,
                                                             const typename SimplicialComplex::ValueType& t )
 {
-  if( s.dimension() != t.dimension() )
+  // A simplex is not its own neighbour.
+  if( s == t || s.dimension() != t.dimension() )
     return false;
 
   using Simplex = typename SimplicialComplex::ValueType;
-- 
2.43.0


From ec663390ef1516621b24fe6d0e5e67e6f0a0d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:18 +0000
Subject: [PATCH 081/122] fix: report negative curvature values

The curvature was calculated with unsigned values, so that values smaller
than zero became very large.
---
 include/aleph/topology/CombinatorialCurvature.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/aleph/topology/CombinatorialCurvature.hh b/include/aleph/topology/CombinatorialCurvature.hh
index 4e7d7bf..cb412dc 100644
--- a/include/aleph/topology/CombinatorialCurvature.hh
+++ b/include/aleph/topology/CombinatorialCurvature.hh
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <iterator>
 #include <set>
+#include <type_traits>
 #include <vector>
 
 #include <cmath>
@@ -94,7 +95,7 @@ template <class SimplicialComplex, class OutputIterator> void curvature( const S
                                                                          unsigned p = 1 )
 {
   using Simplex    = typename SimplicialComplex::ValueType;
-  using VertexType = typename Simplex::VertexType;
+  using ResultType = typename std::make_signed<typename Simplex::VertexType>::type;
   auto pair        = K.range( p );
 
   for( auto&& it = pair.first; it != pair.second; ++it )
@@ -107,9 +108,9 @@ template <class SimplicialComplex, class OutputIterator> void curvature( const S
     range                      = K.range( s.dimension() );
     auto numParallelNeighbours = std::count_if( range.first, range.second, isParallelNeighbour );
 
-    *result++ = VertexType(   VertexType( numCofaces )
-                            + VertexType( s.size() )
-                            - VertexType( numParallelNeighbours ) );
+    *result++ = ResultType(   ResultType( numCofaces )
+                            + ResultType( s.size() )
+                            - ResultType( numParallelNeighbours ) );
   }
 }
 
-- 
2.43.0


From 6d74614050286f25f30419d85ef202cdbaa91186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:33 +0000
Subject: [PATCH 082/122] fix: contribution of individual neighbours to the
 weighted curvature

Following Forman, the absolute value has to be taken for every neighbour
on its own. Contributions of different neighbours cancelled each other.
---
 .../aleph/topology/CombinatorialCurvature.hh    | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/aleph/topology/CombinatorialCurvature.hh b/include/aleph/topology/CombinatorialCurvature.hh
index cb412dc..0921d5f 100644
--- a/include/aleph/topology/CombinatorialCurvature.hh
+++ b/include/aleph/topology/CombinatorialCurvature.hh
@@ -205,8 +205,7 @@ template <class SimplicialComplex, class OutputIterator> void weightedCurvature(
 
     range = K.range( s.dimension() );
 
-    std::vector<DataType> weights_commonCofaces;
-    std::vector<DataType> weights_commonFaces;
+    std::vector<DataType> weights_parallelNeighbours;
 
     for( auto itNeighbour = range.first; itNeighbour != range.second; ++itNeighbour )
     {
@@ -217,19 +216,23 @@ template <class SimplicialComplex, class OutputIterator> void weightedCurvature(
       auto faces   = commonFaces  ( K, *itNeighbour, s );
       auto weight  = std::sqrt( s.data() * itNeighbour->data() );
 
+      DataType s1 = DataType();
+      DataType s2 = DataType();
+
       for( auto&& coface : cofaces )
-        weights_commonCofaces.push_back( weight / coface.data() );
+        s1 += weight / coface.data();
 
       for( auto&& face : faces )
-        weights_commonFaces.push_back( face.data() / weight );
+        s2 += face.data() / weight;
+
+      weights_parallelNeighbours.push_back( std::abs( s1 - s2 ) );
     }
 
     auto s11 = aleph::math::accumulate_kahan_sorted( weights_Cofaces.begin()      , weights_Cofaces.end()      , DataType() );
     auto s12 = aleph::math::accumulate_kahan_sorted( weights_Faces.begin()        , weights_Faces.end()        , DataType() );
-    auto s21 = aleph::math::accumulate_kahan_sorted( weights_commonCofaces.begin(), weights_commonCofaces.end(), DataType() );
-    auto s22 = aleph::math::accumulate_kahan_sorted( weights_commonFaces.begin()  , weights_commonFaces.end()  , DataType() );
+    auto s2  = aleph::math::accumulate_kahan_sorted( weights_parallelNeighbours.begin(), weights_parallelNeighbours.end(), DataType() );
 
-    auto curvature = s.data() * ( (s11 + s12) - std::abs( s21 - s22 ) );
+    auto curvature = s.data() * ( (s11 + s12) - s2 );
     *result++      = curvature;
   }
 }
-- 
2.43.0


From fee53a5a588bf60d53298467da9e426a38839820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:23 +0000
Subject: [PATCH 083/122] fix: skip first eigenvalue when evaluating heat
 kernels

The setting was only used by the constructor, where it could not have been
changed yet. Afterwards, it merely broke the sampling interval.
---
 include/aleph/geometry/HeatKernel.hh | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index 2697ddf..76a480d 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -212,12 +212,10 @@ public:
 
     using IndexType_ = typename decltype(L)::Index;
 
-    // If configured, skip both the first eigenvector and the first
-    // eigenvalue because they do not contribute anything later on.
-    for( IndexType_ i = _skip ? 1 : 0; i < eigenvalues.size(); i++ )
+    for( IndexType_ i = 0; i < eigenvalues.size(); i++ )
       _eigenvalues.push_back( eigenvalues(i) );
 
-    for( IndexType_ i = _skip ? 1 : 0; i < eigenvectors.cols(); i++ )
+    for( IndexType_ i = 0; i < eigenvectors.cols(); i++ )
       _eigenvectors.push_back( eigenvectors.col(i) );
 
 #else
@@ -241,7 +239,7 @@ public:
     auto n        = _eigenvectors.empty() ? IndexType() : _eigenvectors.front().size();
     Matrix result = Matrix::Zero( n, n );
 
-    for( std::size_t k = 0; k < _eigenvalues.size(); k++ )
+    for( std::size_t k = _skip ? 1 : 0; k < _eigenvalues.size(); k++ )
     {
       auto&& lk  = std::exp( -t * _eigenvalues[k] );
       auto&& uk = _eigenvectors[k];
@@ -269,7 +267,7 @@ public:
 
     aleph::math::KahanSummation<T> result = T();
 
-    for( std::size_t k = 0; k < _eigenvalues.size(); k++ )
+    for( std::size_t k = _skip ? 1 : 0; k < _eigenvalues.size(); k++ )
     {
       auto&& lk  = std::exp( -t * _eigenvalues[k] );
       auto&& uik = _eigenvectors[k](i);
@@ -304,7 +302,7 @@ public:
 
     aleph::math::KahanSummation<T> result = T();
 
-    for( std::size_t k = 0; k < _eigenvalues.size(); k++ )
+    for( std::size_t k = _skip ? 1 : 0; k < _eigenvalues.size(); k++ )
     {
       auto&& lk  = std::exp( -t * _eigenvalues[k] );
       auto&& uik = _eigenvectors[k](i);
@@ -331,8 +329,8 @@ public:
   {
     aleph::math::KahanSummation<T> result = T();
 
-    for( auto&& eigenvalue : _eigenvalues )
-      result += std::exp( -t * eigenvalue );
+    for( std::size_t k = _skip ? 1 : 0; k < _eigenvalues.size(); k++ )
+      result += std::exp( -t * _eigenvalues[k] );
 
     return result;
   }
@@ -346,8 +344,8 @@ public:
   {
     T result = T(1);
 
-    for( auto&& eigenvalue : _eigenvalues )
-      result = result * std::exp( -t * eigenvalue );
+    for( std::size_t k = _skip ? 1 : 0; k < _eigenvalues.size(); k++ )
+      result = result * std::exp( -t * _eigenvalues[k] );
 
     return result;
   }
@@ -367,7 +365,7 @@ public:
   std::vector<T> logarithmicSamplingInterval( unsigned n ) const
   {
     auto t_min  = 4 * std::log( 10 ) / _eigenvalues.back();
-    auto t_max  = 4 * std::log( 10 ) / ( _skip ? _eigenvalues.front() : *( _eigenvalues.begin() + 1 ) );
+    auto t_max  = 4 * std::log( 10 ) / *( _eigenvalues.begin() + 1 );
     auto offset = ( std::log( t_max ) - std::log( t_min ) ) / ( n - 1 );
 
     std::vector<T> samples;
-- 
2.43.0


From 2930ac65343b7861ad1bb3e5373aedd893fba8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:41 +0000
Subject: [PATCH 084/122] fix: dimension of persistence diagrams in Python
 bindings

Getter and setter of the property were swapped, so that it could be neither
read nor written.
---
 bindings/python/aleph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index b4b51f7..bef509a 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -327,7 +327,7 @@ void wrapPersistenceDiagram( py::module& m )
     )
     .def( "removeDiagonal", &PersistenceDiagram::removeDiagonal )
     .def( "removeUnpaired", &PersistenceDiagram::removeUnpaired )
-    .def_property( "dimension", &PersistenceDiagram::setDimension, &PersistenceDiagram::dimension )
+    .def_property( "dimension", &PersistenceDiagram::dimension, &PersistenceDiagram::setDimension )
     .def_property_readonly( "betti", &PersistenceDiagram::betti )
     .def( "__array__",
       [] ( PersistenceDiagram& D )
-- 
2.43.0


From 2e46d55e3385cfa91dab94ca7d7562972a442619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:41 +0000
Subject: [PATCH 085/122] fix: check indices of simplicial complexes in Python
 bindings

Indices out of range resulted in undefined behaviour instead of an
exception.
---
 bindings/python/aleph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index bef509a..9e3a596 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -246,7 +246,7 @@ void wrapSimplicialComplex( py::module& m )
       }
     )
     .def( "__contains__", &SimplicialComplex::contains )
-    .def( "__getitem__",  &SimplicialComplex::operator[] ) // FIXME: might want to handle negative indices?
+    .def( "__getitem__",  &SimplicialComplex::at ) // FIXME: might want to handle negative indices?
     .def( "__iter__",
       [] ( const SimplicialComplex& K )
       {
-- 
2.43.0


From ff2f2469306b708a05b1854b26959e6798d2ead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:41 +0000
Subject: [PATCH 086/122] fix: absolute value of step functions in Python
 bindings

Calculating the absolute value changed the function itself.
---
 bindings/python/aleph.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 9e3a596..2623ff5 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -683,7 +683,13 @@ void wrapStepFunction( py::module& m )
             }
       )
     )
-    .def( "__abs__" , &StepFunction::abs )
+    .def( "__abs__" ,
+      [] ( const StepFunction& f )
+      {
+        StepFunction g = f;
+        return g.abs();
+      }
+    )
     .def( "__add__" ,
       [] ( const StepFunction& f, const StepFunction& g )
       {
-- 
2.43.0


From 3dfe9448ed724bf77bfc0cc412c7df4f3a17f93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:41 +0000
Subject: [PATCH 087/122] fix: keep simplex alive while traversing its boundary
 in Python bindings

Call policies have no effect for the getters of properties unless they are
specified for a function. The iterator accessed simplices that had already
been destroyed.
---
 bindings/python/aleph.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 2623ff5..2108d4d 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -174,10 +174,12 @@ void wrapSimplex( py::module& m )
           }, py::keep_alive<0,1>()
     )
     .def_property_readonly( "boundary",
-          [] ( const Simplex& simplex )
-          {
-            return py::make_iterator( simplex.begin_boundary(), simplex.end_boundary() );
-          }, py::keep_alive<0,1>()
+          py::cpp_function(
+            [] ( const Simplex& simplex )
+            {
+              return py::make_iterator( simplex.begin_boundary(), simplex.end_boundary() );
+            }, py::keep_alive<0,1>()
+          )
     )
     .def_property_readonly( "dimension", &Simplex::dimension )
     .def_property_readonly( "empty"    , &Simplex::empty )
-- 
2.43.0


From f0783c637d5283645ddf770fb55541d2625ebadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:41 +0000
Subject: [PATCH 088/122] fix: load files with functor in Python bindings

The complex was not returned, and values of the functor were converted to
Boolean values.
---
 bindings/python/aleph.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 2108d4d..6e892d5 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -764,9 +764,11 @@ void wrapInputFunctions( py::module& m )
               K,
               [&functor] ( DataType a, DataType b )
               {
-                return py::cast<bool>( functor(a,b) );
+                return py::cast<DataType>( functor(a,b) );
               }
       );
+
+      return K;
     }
   );
 
-- 
2.43.0


From cb94eea3b3a1c4c353534974c072afbfe966d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:41 +0000
Subject: [PATCH 089/122] fix: register distances and kernels in Python
 bindings

The functions were defined but never added to the module.
---
 bindings/python/aleph.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 6e892d5..cac9d99 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -1195,6 +1195,8 @@ PYBIND11_MODULE(aleph, m)
   wrapPersistenceDiagram(m);
   wrapPersistencePairing(m);
   wrapPersistentHomologyCalculation(m);
+  wrapDistanceCalculations(m);
+  wrapKernelCalculations(m);
   wrapRipsExpander(m);
   wrapStepFunction(m);
   wrapInputFunctions(m);
-- 
2.43.0


From ac83e633c1349c1b0129a801e2e704bf11cb4257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:41 +0000
Subject: [PATCH 090/122] fix: respect strides of point clouds in Python
 bindings

The coordinates of transposed arrays, or slices of arrays, were read in the
wrong order.
---
 bindings/python/aleph.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index cac9d99..2ddf886 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -472,9 +472,13 @@ void wrapPersistentHomologyCalculation( py::module& m )
       );
 
       DataType* target = pointCloud.data();
-      DataType* source = reinterpret_cast<DataType*>( bufferInfo.ptr );
+      auto source      = reinterpret_cast<const char*>( bufferInfo.ptr );
 
-      std::copy( source, source + n*d, target );
+      // The buffer is not necessarily contiguous, so the strides need to
+      // be taken into account.
+      for( py::ssize_t i = 0; i < n; i++ )
+        for( py::ssize_t j = 0; j < d; j++ )
+          *target++ = *reinterpret_cast<const DataType*>( source + i*bufferInfo.strides[0] + j*bufferInfo.strides[1] );
 
       using Distance = aleph::geometry::distances::Euclidean<DataType>;
       dimension      = dimension > 0 ? dimension : static_cast<unsigned>( pointCloud.dimension() + 1 );
-- 
2.43.0


From 5380e6e5f81575117fe57580a0ed114e27512728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:41 +0000
Subject: [PATCH 091/122] fix: report selected edges of distance matrices in
 Python bindings

The vertex that creates a connected component is not necessarily a vertex
of the edge that destroys it, so that pairs of vertices were reported that
are not part of the spanning tree.
---
 bindings/python/aleph.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 2ddf886..d717232 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -1110,14 +1110,9 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
           // make this a proper selection of edges.
           else
           {
-            auto u = K[ pair.first ][0]; // creator is always a vertex
             auto e = K[ pair.second ];   // destroyer is always an edge
 
-            // Select the proper vertex index for the destroyer; this is
-            // just the *other* vertex of the edge.
-            auto v = e[0] != u ? e[0] : e[1];
-
-            selected_edges.push_back( std::make_pair( u, v ) );
+            selected_edges.push_back( std::make_pair( e[1], e[0] ) );
           }
         }
 
-- 
2.43.0


From 5de24a203746f1a3a39c0fb8f07cd36e9f0b824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:41 +0000
Subject: [PATCH 092/122] fix: report largest edge of destroying triangles in
 Python bindings

The first edge with a weight of at least the one of the creator was used,
which is not necessarily the largest one.
---
 bindings/python/aleph.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index d717232..1ffccec 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -1157,17 +1157,17 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
           auto k = i;
           auto l = j;
 
-          if( d1 >= creator.data() )
+          if( d1 >= destroyer.data() )
           {
             k = u; 
             l = v;
           }
-          else if( d2 >= creator.data() )
+          else if( d2 >= destroyer.data() )
           {
             k = u;
             l = w;
           }
-          else if( d3 >= creator.data() )
+          else if( d3 >= destroyer.data() )
           {
             k = v;
             l = w;
-- 
2.43.0


From a4816d537069f46c1cfda46b33a3ecc7944c938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:01 +0000
Subject: [PATCH 093/122] fix: use smoothing parameter in exponents of
 multi-scale kernel

---
 .../aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh b/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
index b068581..7cf6beb 100644
--- a/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
+++ b/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
@@ -73,8 +73,8 @@ template <class T> double multiScaleKernel( const PersistenceDiagram<T>& D1,
       auto d1 = detail::squaredEuclideanDistance( p, q );
       auto d2 = detail::squaredEuclideanDistance( p, q, true );
 
-      sum += std::exp( -d1 / ( 8.0*M_PI ) );
-      sum -= std::exp( -d2 / ( 8.0*M_PI ) );
+      sum += std::exp( -d1 / ( 8.0*sigma ) );
+      sum -= std::exp( -d2 / ( 8.0*sigma ) );
     }
   }
 
@@ -93,8 +93,8 @@ template <class T> double multiScaleFeatureMap( const PersistenceDiagram<T>& D,
       auto d1 = detail::squaredEuclideanDistance( p, q );
       auto d2 = detail::squaredEuclideanDistance( p, q, true );
 
-      result += std::exp( -d1 / (4.0*M_PI) );
-      result -= std::exp( -d2 / (4.0*M_PI) );
+      result += std::exp( -d1 / (4.0*sigma) );
+      result -= std::exp( -d2 / (4.0*sigma) );
     }
   }
 
-- 
2.43.0


From 12b2a37c0b7ea391f8aebfb11b82addb8da4dda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:01 +0000
Subject: [PATCH 094/122] fix: ensure that multi-scale pseudo-metric is defined
 for similar diagrams

---
 include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh b/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
index 7cf6beb..c245c8d 100644
--- a/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
+++ b/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
@@ -120,7 +120,9 @@ template <class T> double multiScalePseudoMetric( const PersistenceDiagram<T>& D
   auto kxy = multiScaleKernel( D1, D2, sigma );
   auto kyy = multiScaleKernel( D2, D2, sigma );
 
-  return std::sqrt( kxx + kyy - 2*kxy );
+  // Prevent negative values due to rounding errors if both diagrams are
+  // (almost) equal.
+  return std::sqrt( std::max( kxx + kyy - 2*kxy, 0.0 ) );
 }
 
 } // namespace aleph
-- 
2.43.0


From 10fbc55e27c8d992bbd897b93812d2f69c53cb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:01 +0000
Subject: [PATCH 095/122] fix: calculate pseudo-metric of kernel embedding from
 all kernel values

---
 .../aleph/persistenceDiagrams/kernels/KernelEmbedding.hh  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
index b9f2ee0..9997d1d 100644
--- a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
+++ b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
@@ -128,11 +128,13 @@ double pseudoMetric( const PersistenceDiagram<T>& D,
                      Weight w,
                      Kernel k )
 {
-  auto kxx = linearKernel(D, E, w, k);
+  auto kxx = linearKernel(D, D, w, k);
   auto kxy = linearKernel(D, E, w, k);
-  auto kyy = linearKernel(D, E, w, k);
+  auto kyy = linearKernel(E, E, w, k);
 
-  return std::sqrt( kxx + kyy - 2*kxy );
+  // Prevent negative values due to rounding errors if both diagrams are
+  // (almost) equal.
+  return std::sqrt( std::max( kxx + kyy - 2*kxy, 0.0 ) );
 }
 
 /**
-- 
2.43.0


From 94a8ff624fec1d43e253e5332afa02d403cbdd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:01 +0000
Subject: [PATCH 096/122] fix: use squared distance in Gaussian kernel of
 persistence diagrams

---
 include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
index 9997d1d..c4cf00c 100644
--- a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
+++ b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
@@ -172,7 +172,7 @@ double gaussianKernel( const PersistenceDiagram<T>& D,
                        double tau )
 {
   auto d = pseudoMetric(D, E, w, k);
-  return std::exp( -1/(2*tau*tau) * d );
+  return std::exp( -1/(2*tau*tau) * d*d );
 }
 
 /**
@@ -200,7 +200,7 @@ double gaussianKernel( const PersistenceDiagram<T>& D,
   auto k = detail::DefaultKernel( sigma );
   auto d = pseudoMetric(D, E, w, k);
 
-  return std::exp( -1/(2*tau*tau) * d );
+  return std::exp( -1/(2*tau*tau) * d*d );
 }
 
 
-- 
2.43.0


From 59583715d7d2d463d6783b75aa2b815dfa196289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:09 +0000
Subject: [PATCH 097/122] fix: ensure that calculating the mean of persistence
 diagrams terminates

---
 include/aleph/persistenceDiagrams/Mean.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Mean.hh b/include/aleph/persistenceDiagrams/Mean.hh
index 7c9cc38..53228c6 100644
--- a/include/aleph/persistenceDiagrams/Mean.hh
+++ b/include/aleph/persistenceDiagrams/Mean.hh
@@ -206,6 +206,11 @@ template <class InputIterator> auto mean( InputIterator begin, InputIterator end
     }
   }
 
+  // Stores all pairings encountered so far. The search may alternate
+  // between several pairings, so it is not sufficient to compare only
+  // with the previous one.
+  std::vector< std::vector<detail::Pairing> > knownPairings = { pairings };
+
   bool stop = false;
   while( !stop )
   {
@@ -280,10 +285,11 @@ template <class InputIterator> auto mean( InputIterator begin, InputIterator end
         }
       }
 
-      if( newPairings == pairings )
+      if( std::find( knownPairings.begin(), knownPairings.end(), newPairings ) != knownPairings.end() )
         stop = true;
       else
       {
+        knownPairings.push_back( newPairings );
         pairings.swap( newPairings );
         cost = newCost;
       }
-- 
2.43.0


From 5b404c3fbe154f7c9fa351f22d6610b62d53219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:03 +0000
Subject: [PATCH 098/122] fix: report proper Wasserstein and bottleneck
 distances

The tool combines the distances of all dimensions by adding their powers
and taking the root of the sum. Only the Hausdorff distance was raised to
the power beforehand, so the other two were reported as their own root.
---
 src/tools/topological_distance.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index dc3a86b..7dd5480 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -271,7 +271,7 @@ double persistenceDiagramDistance( const std::vector<DataSet>& dataSet1,
                                    double power,
                                    Functor functor = [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double power )
                                    {
-                                     return aleph::distances::wassersteinDistance( D1, D2, power );
+                                     return std::pow( aleph::distances::wassersteinDistance( D1, D2, power ), power );
                                    } )
 {
   auto getPersistenceDiagram = [] ( const std::vector<DataSet>& dataSet, unsigned dimension )
@@ -691,12 +691,12 @@ int main( int argc, char** argv )
         useWassersteinDistance
         ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
              {
-               return aleph::distances::wassersteinDistance( D1, D2, p );
+               return std::pow( aleph::distances::wassersteinDistance( D1, D2, p ), p );
              }
         : useBottleneckDistance
-          ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double )
+          ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
                {
-                 return aleph::distances::bottleneckDistance( D1, D2 );
+                 return std::pow( aleph::distances::bottleneckDistance( D1, D2 ), p );
                }
           : [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
                {
-- 
2.43.0


From 4dac8c4f39ae4ed568798f0e9a09a517df2f9be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:26 +0000
Subject: [PATCH 099/122] fix: let the last distance option win

Selecting another distance did not always reset the bottleneck distance
or the scale-space kernel, so the result depended on the order of the
options.
---
 src/tools/topological_distance.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index 7dd5480..d639948 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -451,6 +451,7 @@ int main( int argc, char** argv )
     case 'E':
       useEnvelopeFunctionDistance  = true;
       useBottleneckDistance        = false;
+      useScaleSpaceKernel          = false;
       useWassersteinDistance       = false;
       useIndicatorFunctionDistance = false;
       break;
@@ -458,12 +459,14 @@ int main( int argc, char** argv )
       useExponentialFunction = true;
       break;
     case 'h':
+      useBottleneckDistance        = false;
       useWassersteinDistance       = false;
       useIndicatorFunctionDistance = false;
       useScaleSpaceKernel          = false;
       useEnvelopeFunctionDistance  = false;
       break;
     case 'i':
+      useBottleneckDistance        = false;
       useIndicatorFunctionDistance = true;
       useEnvelopeFunctionDistance  = false;
       useScaleSpaceKernel          = false;
@@ -482,6 +485,7 @@ int main( int argc, char** argv )
       removeDuplicates = true;
       break;
     case 'S':
+      useBottleneckDistance        = false;
       useEnvelopeFunctionDistance  = false;
       useScaleSpaceKernel          = true;
       useIndicatorFunctionDistance = false;
@@ -492,6 +496,7 @@ int main( int argc, char** argv )
       calculateKernel = true;
       break;
     case 'w':
+      useBottleneckDistance        = false;
       useEnvelopeFunctionDistance  = false;
       useIndicatorFunctionDistance = false;
       useScaleSpaceKernel          = false;
-- 
2.43.0


From 1cf193624f47caef502c64b54d5362f9869214e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:26 +0000
Subject: [PATCH 100/122] fix: report proper kernel matrices

The values of the scale-space kernel were negated and replaced by their
root as if they were distances. In addition, the diagonal of all kernel
matrices was zero.
---
 src/tools/topological_distance.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index d639948..6c0824b 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -761,9 +761,11 @@ int main( int argc, char** argv )
       else if( useEnvelopeFunctionDistance )
         d = distanceEnvelopeFunctions( dataSets.at(row), dataSets.at(col), minDimension, maxDimension, power );
       else
-        d = persistenceDiagramDistance( dataSets.at(row), dataSets.at(col), minDimension, maxDimension, power, functor );
+        d = persistenceDiagramDistance( dataSets.at(row), dataSets.at(col), minDimension, maxDimension, useScaleSpaceKernel ? 1.0 : power, functor );
 
-      if( calculateKernel )
+      // The scale-space kernel already yields kernel values. No distance
+      // is involved here, so there is nothing to convert.
+      if( calculateKernel && !useScaleSpaceKernel )
       {
         d = -d;
         if( useExponentialFunction )
@@ -776,6 +778,16 @@ int main( int argc, char** argv )
       if( verbose )
         std::cerr << ".";
     }
+
+    // Distances on the diagonal vanish, but the corresponding kernel values
+    // do not.
+    for( std::size_t i = 0; i < n; i++ )
+    {
+      if( useScaleSpaceKernel )
+        distances[i][i] = persistenceDiagramDistance( dataSets.at(i), dataSets.at(i), minDimension, maxDimension, 1.0, functor );
+      else if( calculateKernel && useExponentialFunction )
+        distances[i][i] = 1.0;
+    }
   }
 
   std::cerr << "finished\n";
-- 
2.43.0


From b22acec290318aca7a331da21e0f896260f7898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:51 +0000
Subject: [PATCH 101/122] fix: check list of filenames

A missing or an empty list resulted in accessing the first element of an
empty vector.
---
 src/tools/topological_distance.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index 6c0824b..8faa594 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -42,6 +42,7 @@
 #include <limits>
 #include <map>
 #include <regex>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -541,10 +542,15 @@ int main( int argc, char** argv )
       auto filename = filenames.front();
       filenames.clear();
       std::ifstream in( filename );
+      if( !in )
+        throw std::runtime_error( "Unable to read list of filenames" );
 
       std::string line;
       while( std::getline( in, line ) )
         filenames.push_back( line );
+
+      if( filenames.empty() )
+        throw std::runtime_error( "List of filenames is empty" );
     }
 
     // If the first filename is a text file, I am assuming that the rest
-- 
2.43.0


From 44cd783b17dd8c2bdded7edf2dd37ff79c1e2aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:51 +0000
Subject: [PATCH 102/122] fix: report missing input files

A file that cannot be read was treated like an empty one.
---
 src/tools/function_analysis.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/function_analysis.cc b/src/tools/function_analysis.cc
index 5d77189..f65df9a 100644
--- a/src/tools/function_analysis.cc
+++ b/src/tools/function_analysis.cc
@@ -229,6 +229,9 @@ int main( int argc, char** argv )
     if( filename != "-" and not filename.empty() )
     {
       fin.open( filename );
+      if( !fin )
+        throw std::runtime_error( "Unable to read input file" );
+
       in = &fin;
     }
 
-- 
2.43.0


From c350aa588bc0cca76b63ec5756659a39f6be0a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:51 +0000
Subject: [PATCH 103/122] fix: support empty diagrams in signature calculation

The number of pairs of points underflows for a diagram without points.
---
 src/tools/make_signature.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/make_signature.cc b/src/tools/make_signature.cc
index e33ccce..3db3f22 100644
--- a/src/tools/make_signature.cc
+++ b/src/tools/make_signature.cc
@@ -78,7 +78,7 @@ std::vector<DataType> makeSignature( const PersistenceDiagram& D )
   // All pairwise distances with potential repetitions for points that
   // are well outside the influence radius of other points.
   std::vector<DataType> distances;
-  distances.reserve( ( D.size() * D.size() - 1 ) / 2 );
+  distances.reserve( D.empty() ? 0 : D.size() * ( D.size() - 1 ) / 2 );
 
   for( auto it1 = D.begin(); it1 != D.end(); ++it1 )
   {
-- 
2.43.0


From 3580f2ede2964e08ea3b7c527207bde72a733c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:51 +0000
Subject: [PATCH 104/122] fix: sort simplices by weight for connectivity
 matrices

The simplices were sorted lexicographically, so the diagrams ignored the
weights of the matrix.
---
 src/tools/connectivity_matrix_analysis.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/connectivity_matrix_analysis.cc b/src/tools/connectivity_matrix_analysis.cc
index 23b1afd..759d403 100644
--- a/src/tools/connectivity_matrix_analysis.cc
+++ b/src/tools/connectivity_matrix_analysis.cc
@@ -15,6 +15,8 @@
 
 #include <aleph/persistentHomology/Calculation.hh>
 
+#include <aleph/topology/filtrations/Data.hh>
+
 #include <aleph/topology/io/AdjacencyMatrix.hh>
 
 #include <aleph/topology/Simplex.hh>
@@ -132,7 +134,7 @@ int main( int argc, char** argv )
       }
     );
 
-    K.sort();
+    K.sort( aleph::topology::filtrations::Data<Simplex>() );
 
     bool dualize                    = true;
     bool includeAllUnpairedCreators = keepUnpaired;
-- 
2.43.0


From 63793a2d80034b0237260b9b92864a480d4e85dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:51 +0000
Subject: [PATCH 105/122] fix: separate diagrams of connectivity matrices

The output is supposed to be a JSON document, but there was no separator
between the diagrams.
---
 src/tools/connectivity_matrix_analysis.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tools/connectivity_matrix_analysis.cc b/src/tools/connectivity_matrix_analysis.cc
index 759d403..55155a8 100644
--- a/src/tools/connectivity_matrix_analysis.cc
+++ b/src/tools/connectivity_matrix_analysis.cc
@@ -119,6 +119,8 @@ int main( int argc, char** argv )
   std::cout << "{\n"
             << "\"diagrams\": [\n";
 
+  bool isFirstDiagram = true;
+
   for( auto&& filename : filenames )
   {
     if( verbose )
@@ -174,6 +176,11 @@ int main( int argc, char** argv )
 
       kvs["persistent_entropy"]  = std::to_string( aleph::persistentEntropy( diagram ) );
 
+      if( !isFirstDiagram )
+        std::cout << ",\n";
+
+      isFirstDiagram = false;
+
       aleph::io::writeJSON( std::cout, diagram, basename, kvs );
     }
   }
-- 
2.43.0


From e6e0ae084cd87f750ecbc681604119f52a81063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:51 +0000
Subject: [PATCH 106/122] fix: use expanded complexes of sparse adjacency
 matrices

The result of the expansion was discarded.
---
 src/tools/sparse_adjacency_matrices.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sparse_adjacency_matrices.cc b/src/tools/sparse_adjacency_matrices.cc
index 80f5ca4..ffb9b9c 100644
--- a/src/tools/sparse_adjacency_matrices.cc
+++ b/src/tools/sparse_adjacency_matrices.cc
@@ -241,7 +241,7 @@ int main( int argc, char** argv )
     std::cerr << "* Expanding simplicial complexes to dimension " << dimension << "...";
 
     for( auto&& K : simplicialComplexes )
-      expander( K, dimension );
+      K = expander( K, dimension );
 
     std::cerr << "finished\n";
   }
-- 
2.43.0


From c692117c0e5619c1827ac22df8bf3776c3cb1cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:51 +0000
Subject: [PATCH 107/122] fix: sort superlevel set filtration in descending
 order

Else, a simplex may precede its faces.
---
 src/tools/sparse_adjacency_matrices.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sparse_adjacency_matrices.cc b/src/tools/sparse_adjacency_matrices.cc
index ffb9b9c..aea2ae2 100644
--- a/src/tools/sparse_adjacency_matrices.cc
+++ b/src/tools/sparse_adjacency_matrices.cc
@@ -315,7 +315,7 @@ int main( int argc, char** argv )
       if( useSuperlevelSets )
       {
         K.sort(
-           aleph::topology::filtrations::Data< Simplex, std::less<DataType> >()
+           aleph::topology::filtrations::Data< Simplex, std::greater<DataType> >()
          );
       }
       else
-- 
2.43.0


From 58575337e51b394d8075552162c542ca547e26e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:19 +0000
Subject: [PATCH 108/122] fix: support empty diagrams in bottleneck distance

The search for a matching dereferenced the end of an empty range of edges
if neither one of the diagrams contains a point.
---
 include/aleph/persistenceDiagrams/distances/Bottleneck.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
index 69deecc..35ba973 100644
--- a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
+++ b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
@@ -186,6 +186,10 @@ template <
                            aleph::distances::detail::orthogonalDistance<Distance>( *it2 ) ) );
   }
 
+  // There is nothing to match if both diagrams are empty
+  if( edges.empty() )
+    return DataType();
+
   // Identify matchings ------------------------------------------------
 
   std::sort( edges.begin(), edges.end() );
-- 
2.43.0


From c4d9544b1a7fc37cea69d0fdd9de637c13289c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:19 +0000
Subject: [PATCH 109/122] fix: report point clouds that cannot be read

Loading a file that does not exist silently resulted in an empty point
cloud.
---
 include/aleph/containers/PointCloud.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/containers/PointCloud.hh b/include/aleph/containers/PointCloud.hh
index 715312b..6e7d5e5 100644
--- a/include/aleph/containers/PointCloud.hh
+++ b/include/aleph/containers/PointCloud.hh
@@ -307,6 +307,9 @@ template<class T> PointCloud<T> load( std::istream& in )
 template<class T> PointCloud<T> load( const std::string& filename )
 {
   std::ifstream in( filename );
+  if( !in )
+    throw std::runtime_error( "Unable to read input file" );
+
   return load<T>( in );
 }
 
-- 
2.43.0


From 19055034d01651dd338d235f9510839e93a9d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:35 +0000
Subject: [PATCH 110/122] fix: do not shorten the names of data sets twice

The extension was removed before calculating the stem of the file, which
removed another part of names that contain a dot.
---
 src/tools/persistence_diagram_statistics.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/persistence_diagram_statistics.cc b/src/tools/persistence_diagram_statistics.cc
index 510e549..075bc16 100644
--- a/src/tools/persistence_diagram_statistics.cc
+++ b/src/tools/persistence_diagram_statistics.cc
@@ -70,7 +70,7 @@ std::pair<std::string, unsigned> parseFilename( std::string filename )
   {
     // Ignore anything else before the stem of the filename. Since we
     // are interested in parsing the dimension anyway, this is okay.
-    filename = aleph::utilities::stem( filename );
+    auto stem = aleph::utilities::stem( filename );
 
     std::regex reDataSetPrefix( "(.*)_[dk]([[:digit:]]+)" );
     std::smatch matches;
@@ -78,7 +78,7 @@ std::pair<std::string, unsigned> parseFilename( std::string filename )
     // Check if a recognizable prefix and suffix exist so that we may
     // grab information about the data set and its dimension. If not,
     // use the complete filename to identify the data set.
-    if( std::regex_match( filename, matches, reDataSetPrefix ) )
+    if( std::regex_match( stem, matches, reDataSetPrefix ) )
     {
       std::string name   = matches[1];
       unsigned dimension = unsigned( std::stoul( matches[2] ) );
-- 
2.43.0


From ce1ee782db342f710b56f8b2bf3fea3fd90bd851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:16 +0000
Subject: [PATCH 111/122] fix: compare data sets with different dimensions

A missing diagram was replaced by an empty one of dimension zero, which
cannot be compared with a diagram of another dimension.
---
 src/tools/topological_distance.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index 8faa594..77697f0 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -283,10 +283,14 @@ double persistenceDiagramDistance( const std::vector<DataSet>& dataSet1,
                               return dataSet.dimension == dimension;
                             } );
 
+    PersistenceDiagram D;
     if( it != dataSet.end() )
-      return PersistenceDiagram( it->persistenceDiagram );
-    else
-      return PersistenceDiagram();
+      D = it->persistenceDiagram;
+
+    // Ensures that a missing diagram can be compared with the diagram of the
+    // other data set.
+    D.setDimension( dimension );
+    return D;
   };
 
   double d = 0.0;
-- 
2.43.0


From e76de755172091a821cbad42b28b3ecd7ac37189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:49:18 +0000
Subject: [PATCH 112/122] fix: require argument of the option for choosing a
 spine

The short option was declared without an argument, so that its value was
a null pointer.
---
 src/tools/persistent_spines.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/persistent_spines.cc b/src/tools/persistent_spines.cc
index ad25323..4c126ab 100644
--- a/src/tools/persistent_spines.cc
+++ b/src/tools/persistent_spines.cc
@@ -48,7 +48,7 @@ int main( int argc, char** argv )
     };
 
     int option = 0;
-    while( ( option = getopt_long( argc, argv, "r:st", commandLineOptions, nullptr ) ) != -1 )
+    while( ( option = getopt_long( argc, argv, "r:s:t", commandLineOptions, nullptr ) ) != -1 )
     {
       switch( option )
       {
-- 
2.43.0


From e1431a8572817af5febb94a07fa57679656130c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:49:18 +0000
Subject: [PATCH 113/122] fix: accept short option for the number of bootstrap
 samples

---
 src/tools/piecewise_linear_function_smoothing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/piecewise_linear_function_smoothing.cc b/src/tools/piecewise_linear_function_smoothing.cc
index c6e5849..6c37569 100644
--- a/src/tools/piecewise_linear_function_smoothing.cc
+++ b/src/tools/piecewise_linear_function_smoothing.cc
@@ -72,7 +72,7 @@ int main( int argc, char** argv )
     };
 
     int option = 0;
-    while( ( option = getopt_long( argc, argv, "a:", commandLineOptions, nullptr ) ) != - 1 )
+    while( ( option = getopt_long( argc, argv, "a:n:", commandLineOptions, nullptr ) ) != - 1 )
     {
       switch( option )
       {
-- 
2.43.0


From 7ca152d0d5994333fa15bf9b2b42a493061a97b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:49:48 +0000
Subject: [PATCH 114/122] fix: let faces precede cofaces in absolute weight
 filtrations

The comparison was not a strict weak ordering: for equal weights, an edge
and a vertex could each precede the other one.
---
 src/tools/stratified_graph_analysis.cc | 48 +++++++++++++-------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/tools/stratified_graph_analysis.cc b/src/tools/stratified_graph_analysis.cc
index d733587..36238f6 100644
--- a/src/tools/stratified_graph_analysis.cc
+++ b/src/tools/stratified_graph_analysis.cc
@@ -205,21 +205,21 @@ SimplicialComplex applyFiltration( const SimplicialComplex& K,
           return true;
         else if( std::abs( w1 ) == std::abs( w2 ) )
         {
+          // Faces have to precede their cofaces, regardless of the sign
+          // of their weights.
+          if( s.dimension() != t.dimension() )
+            return s.dimension() < t.dimension();
+
           // This amounts to saying that w1 is positive and w2 is
           // negative.
-          if( w1 > w2 )
-            return true;
+          else if( w1 != w2 )
+            return w1 > w2;
+
+          // Absolute value is equal, signed value is equal, and the
+          // dimension is equal. We thus have to fall back to merely
+          // using the lexicographical order.
           else
-          {
-            if( s.dimension() < t.dimension() )
-              return true;
-
-            // Absolute value is equal, signed value is equal, and the
-            // dimension is equal. We thus have to fall back to merely
-            // using the lexicographical order.
-            else
-              return s < t;
-          }
+            return s < t;
         }
 
         return false;
@@ -238,21 +238,21 @@ SimplicialComplex applyFiltration( const SimplicialComplex& K,
           return true;
         else if( std::abs( w1 ) == std::abs( w2 ) )
         {
+          // Faces have to precede their cofaces, regardless of the sign
+          // of their weights.
+          if( s.dimension() != t.dimension() )
+            return s.dimension() < t.dimension();
+
           // This amounts to saying that w1 is negative and w2 is
           // positive.
-          if( w1 < w2 )
-            return true;
+          else if( w1 != w2 )
+            return w1 < w2;
+
+          // Absolute value is equal, signed value is equal, and the
+          // dimension is equal. We thus have to fall back to merely
+          // using the lexicographical order.
           else
-          {
-            if( s.dimension() < t.dimension() )
-              return true;
-
-            // Absolute value is equal, signed value is equal, and the
-            // dimension is equal. We thus have to fall back to merely
-            // using the lexicographical order.
-            else
-              return s < t;
-          }
+            return s < t;
         }
 
         return false;
-- 
2.43.0


From 96e696269f18d54147de184cb3cd380498586d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:50:05 +0000
Subject: [PATCH 115/122] fix: normalize exactly the patches that remain after
 filtering

The final loop ran over all patches of the input, and their norms were
accumulated as integers.
---
 src/tools/process_image_patches.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/process_image_patches.cc b/src/tools/process_image_patches.cc
index 7f99eb1..5cea145 100644
--- a/src/tools/process_image_patches.cc
+++ b/src/tools/process_image_patches.cc
@@ -181,7 +181,7 @@ int main( int argc, char** argv )
 
   std::cerr << "* Final processing and normalization...";
 
-  for( IndexType i = 0; i < pointCloud.size(); i++ )
+  for( IndexType i = 0; i < processedPointCloud.size(); i++ )
   {
     auto p     = processedPointCloud[i];
     auto mean  = aleph::math::accumulate_kahan_sorted( p.begin(), p.end(), DataType() );
@@ -193,7 +193,7 @@ int main( int argc, char** argv )
                       return x - mean;
                     } );
 
-    auto norm = std::sqrt( std::inner_product( p.begin(), p.end(), p.begin(), 0 ) );
+    auto norm = std::sqrt( std::inner_product( p.begin(), p.end(), p.begin(), DataType() ) );
 
     std::transform( p.begin(), p.end(), p.begin(),
                     [&norm] ( DataType x )
-- 
2.43.0


From bcc597bc491a773e8b4b14b5419680b7a7eda131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:50:05 +0000
Subject: [PATCH 116/122] fix: report empty sets of distances

Else, the output starts with a separator for a single point.
---
 src/tools/rips_distributions.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/tools/rips_distributions.cc b/src/tools/rips_distributions.cc
index 7f59f7f..ba34bea 100644
--- a/src/tools/rips_distributions.cc
+++ b/src/tools/rips_distributions.cc
@@ -100,9 +100,6 @@ template <class Distance> void calculateDegrees( const PointCloud& pointCloud, D
 
 template <class Container> void containerAsJSON( std::ostream& out, const Container& container, const std::string& name, unsigned indent = 2 )
 {
-  if( container.empty() )
-    return;
-
   out << std::string( indent, ' ' ) << "\"" << name << "\": "
       << "[";
 
-- 
2.43.0


From c241295e91cd548418b4c550e40e215e8b4f4e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:50:05 +0000
Subject: [PATCH 117/122] fix: sort descending filtration of connectivity
 matrices properly

Else, edges precede their vertices.
---
 src/tools/ephemeral.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/ephemeral.cc b/src/tools/ephemeral.cc
index 8f53fac..4352191 100644
--- a/src/tools/ephemeral.cc
+++ b/src/tools/ephemeral.cc
@@ -158,7 +158,7 @@ std::vector<PersistenceDiagram> processFilename( const std::string& filename,
   if( reverse )
   {
     K.sort(
-       aleph::topology::filtrations::Data< Simplex, std::less<DataType> >()
+       aleph::topology::filtrations::Data< Simplex, std::greater<DataType> >()
      );
   }
   else
-- 
2.43.0


From 2ae7db8ae96d1ce7d628cee22d4e599e1b0e4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:15 +0000
Subject: [PATCH 118/122] fix: use minimum weights for descending expansions of
 connectivity matrices

---
 src/tools/ephemeral.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/ephemeral.cc b/src/tools/ephemeral.cc
index 4352191..cbe3ea0 100644
--- a/src/tools/ephemeral.cc
+++ b/src/tools/ephemeral.cc
@@ -143,13 +143,13 @@ std::vector<PersistenceDiagram> processFilename( const std::string& filename,
   // If desired, perform a simple Vietoris--Rips expansion of the given
   // simplicial complex. This tacitly assumes that edges are *weighted*
   // and propagates the maximum edge weight to higher-dimensional faces
-  // of the complex.
+  // of the complex, or the minimum if the filtration is descending.
   if( dimension != 0 )
   {
     RipsExpander expander;
 
     K = expander( K, dimension );
-    K = expander.assignMaximumWeight( K );
+    K.recalculateWeights( !reverse, true );
   }
 
   // Setting both of them would be invalid
-- 
2.43.0


From 168ae2adf50f85a4075e721e7fdaca6689d76aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:15 +0000
Subject: [PATCH 119/122] fix: skip ignored values when determining extremal
 weights of matrices

---
 include/aleph/topology/io/AdjacencyMatrix.hh | 21 +++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/io/AdjacencyMatrix.hh b/include/aleph/topology/io/AdjacencyMatrix.hh
index 6cd55e4..c663856 100644
--- a/include/aleph/topology/io/AdjacencyMatrix.hh
+++ b/include/aleph/topology/io/AdjacencyMatrix.hh
@@ -173,9 +173,24 @@ public:
     DataType maxWeight = DataType();
 
     {
-      auto minmax = std::minmax_element( values.begin(), values.end() );
-      minWeight   = *minmax.first;
-      maxWeight   = *minmax.second;
+      // NaNs cannot be compared with other values, so they must not be
+      // considered here if they are to be ignored.
+      auto weights = values;
+      if( _ignoreNaNs )
+      {
+        weights.erase(
+          std::remove_if( weights.begin(), weights.end(),
+                          [] ( DataType w ) { return std::isnan( w ); } ),
+          weights.end()
+        );
+      }
+
+      if( !weights.empty() )
+      {
+        auto minmax = std::minmax_element( weights.begin(), weights.end() );
+        minWeight   = *minmax.first;
+        maxWeight   = *minmax.second;
+      }
     }
 
     // Edges -----------------------------------------------------------
-- 
2.43.0


From 07f6bd8cf64c0218561d4f92f31dd6a82a7f7b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:07:18 +0000
Subject: [PATCH 120/122] fix: estimate dimensionality of one-dimensional data

---
 include/aleph/containers/DimensionalityEstimators.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/aleph/containers/DimensionalityEstimators.hh b/include/aleph/containers/DimensionalityEstimators.hh
index 67a0c93..90e7bfa 100644
--- a/include/aleph/containers/DimensionalityEstimators.hh
+++ b/include/aleph/containers/DimensionalityEstimators.hh
@@ -426,6 +426,11 @@ template <
 
       estimates.push_back( spectralIndex );
     }
+
+    // There is no spectral gap for one-dimensional data, but every
+    // point requires an estimate nonetheless.
+    else
+      estimates.push_back( static_cast<unsigned>( singularValues.size() ) );
   }
 
   return estimates;
-- 
2.43.0


From d31b3b2cd2520a099bd89e9391cd5158ded0194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:24:16 +0000
Subject: [PATCH 121/122] fix: compare points of different dimensions without
 reading out of bounds

---
 include/aleph/geometry/Point.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/Point.hh b/include/aleph/geometry/Point.hh
index 45d4aab..5bc630b 100644
--- a/include/aleph/geometry/Point.hh
+++ b/include/aleph/geometry/Point.hh
@@ -80,7 +80,7 @@ public:
   /** Checks all coordinates of two points for equality */
   bool operator==( const Point& other ) const noexcept
   {
-    return std::equal( _data.begin(), _data.end(), other._data.begin() );
+    return _data == other._data;
   }
 
   /** Checks whether at least one coordinate of the two points differs */
-- 
2.43.0


From 1140fe2b58b1cfcc6b86b427846bd8d915bf5b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:53:11 +0000
Subject: [PATCH 122/122] fix: use the smallest eigenvalue when fitting spheres
 to neighbourhoods

Curvature estimates used the first positive eigenvalue that the solver
returned. The eigenvalues are not sorted, so the estimates were wrong even
for points that lie on a sphere.
---
 include/aleph/geometry/TangentSpace.hh | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/aleph/geometry/TangentSpace.hh b/include/aleph/geometry/TangentSpace.hh
index 9e2236a..e52b5b9 100644
--- a/include/aleph/geometry/TangentSpace.hh
+++ b/include/aleph/geometry/TangentSpace.hh
@@ -19,7 +19,9 @@
 #endif
 
 #include <cassert>
+#include <cmath>
 
+#include <limits>
 #include <set>
 #include <vector>
 
@@ -408,17 +410,28 @@ private:
 
       using Solver = Eigen::GeneralizedEigenSolver<Matrix>;
       Solver solver;
-      solver.compute( D.transpose() * W * D, C );
+      Matrix M = D.transpose() * W * D;
+      solver.compute( M, C );
 
       auto eigenvalues = solver.eigenvalues();
       Vector u         = Vector::Zero( 1, d+2 );
 
+      // The best fit belongs to the smallest non-negative eigenvalue; it
+      // vanishes, up to rounding errors, if all points are on a sphere.
+      // Eigenvalues are not sorted by the solver.
+      auto smallest = std::numeric_limits<T>::infinity();
+
       for( Index i = 0; i < d+2; i++ )
       {
-        if( eigenvalues(i).real() > 0 && eigenvalues(i).imag() == 0 )
+        auto eigenvalue = eigenvalues(i).real();
+        Vector v        = solver.eigenvectors().real().col(i);
+        auto tolerance  = M.norm() * v.squaredNorm() / std::abs( v.dot( v * C ) )
+                          * T( d+2 ) * std::numeric_limits<T>::epsilon();
+
+        if( eigenvalue >= -tolerance && eigenvalue < smallest && eigenvalues(i).imag() == 0 )
         {
-          u = solver.eigenvectors().real().col(i);
-          break;
+          u        = v;
+          smallest = eigenvalue;
         }
       }
 
-- 
2.43.0

