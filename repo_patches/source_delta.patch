From 292f26596e5927e7c0d093efd4bd7a0f15561fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 01/35] fix: keep ridges at infinity in adjacency decomposition
 and never report the face at infinity as a facet

The row (0, ..., 0, -1) was removed from every result of the elimination,
including the ridges used for rotation. There, it may well be a proper ridge
(e.g. for segments, for strips or for an edge on a line through the origin),
so that adjacent rows were missed. On the other hand, rotation and heuristic
reported the row as an inequality of unbounded polyhedra.
---
 src/algorithm_fourier_motzkin_elimination.beti |  1 +
 src/algorithm_fourier_motzkin_elimination.cpp  | 13 ++++++++++++-
 src/algorithm_fourier_motzkin_elimination.h    |  4 ++++
 src/algorithm_rotation.cpp                     | 16 ++++++++++++++--
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/algorithm_fourier_motzkin_elimination.beti b/src/algorithm_fourier_motzkin_elimination.beti
index c97a68e..3ba1325 100644
--- a/src/algorithm_fourier_motzkin_elimination.beti
+++ b/src/algorithm_fourier_motzkin_elimination.beti
@@ -17,6 +17,7 @@ namespace panda
    namespace algorithm
    {
       EXTERN template Matrix<Integer> fourierMotzkinElimination(Matrix<Integer>);
+      EXTERN template Matrix<Integer> fourierMotzkinEliminationWithFarFace(Matrix<Integer>);
       EXTERN template Matrix<Integer> fourierMotzkinEliminationHeuristic(Matrix<Integer>);
    }
 }
diff --git a/src/algorithm_fourier_motzkin_elimination.cpp b/src/algorithm_fourier_motzkin_elimination.cpp
index c4746d1..a3c1960 100644
--- a/src/algorithm_fourier_motzkin_elimination.cpp
+++ b/src/algorithm_fourier_motzkin_elimination.cpp
@@ -35,6 +35,9 @@ namespace
    /// The actual FME, named phase Two in Christof.
    template <typename Bitset, typename Integer>
    void phaseTwo(Matrix<Integer>&, const Vertices<Integer>&);
+   /// Removes the face at infinity.
+   template <typename Integer>
+   void detectBadRow(Matrix<Integer>&);
    /// Abortable phase Two.
    template <typename Bitset, typename Integer>
    void phaseTwoHeuristic(Matrix<Integer>&, const Vertices<Integer>&);
@@ -72,6 +75,14 @@ namespace
 
 template <typename Integer>
 Matrix<Integer> panda::algorithm::fourierMotzkinElimination(Matrix<Integer> input)
+{
+   auto matrix = fourierMotzkinEliminationWithFarFace(std::move(input));
+   detectBadRow(matrix);
+   return matrix;
+}
+
+template <typename Integer>
+Matrix<Integer> panda::algorithm::fourierMotzkinEliminationWithFarFace(Matrix<Integer> input)
 {
    assert( !input.empty() );
    auto matrix = input;
@@ -127,6 +138,7 @@ Matrix<Integer> panda::algorithm::fourierMotzkinEliminationHeuristic(Matrix<Inte
    input.insert(input.begin(), used.cbegin(), used.cend());
    phaseTwoHeuristic<BitsetVariableSize>(matrix, input);
    reinsertZeroColumns(matrix, zero_columns);
+   detectBadRow(matrix);
    return matrix;
 }
 
@@ -348,7 +360,6 @@ namespace
          }, std::chrono::seconds(2));
          projection(matrix, R, vertex, i);
       }
-      detectBadRow(matrix);
    }
 
    template <typename Bitset, typename Integer>
diff --git a/src/algorithm_fourier_motzkin_elimination.h b/src/algorithm_fourier_motzkin_elimination.h
index 56f7f6f..056741d 100644
--- a/src/algorithm_fourier_motzkin_elimination.h
+++ b/src/algorithm_fourier_motzkin_elimination.h
@@ -22,6 +22,10 @@ namespace panda
       /// extremal vertices/rays is returned.
       template <typename Integer>
       Matrix<Integer> fourierMotzkinElimination(Matrix<Integer>);
+      /// Full Fourier-Motzkin elimination that keeps the face at infinity, i.e. the
+      /// row (0, ..., 0, -1). It isn't a facet of a polyhedron, but it may well be a ridge.
+      template <typename Integer>
+      Matrix<Integer> fourierMotzkinEliminationWithFarFace(Matrix<Integer>);
       /// Heuristic using Fourier-Motzkin elimination to identify some facets.
       /// Output is guaranteed to contain only facets, but it is highly likely
       /// that it is not the complete set of facets.
diff --git a/src/algorithm_rotation.cpp b/src/algorithm_rotation.cpp
index 53b69b0..54c6391 100644
--- a/src/algorithm_rotation.cpp
+++ b/src/algorithm_rotation.cpp
@@ -27,6 +27,9 @@ namespace
    /// Returns all ridges on a facet (equivalent to all facets of the facet).
    template <typename Integer>
    Inequalities<Integer> getRidges(const Vertices<Integer>&, const Facet<Integer>&);
+   /// Checks whether the row is the face at infinity. It is not a facet of the polyhedron.
+   template <typename Integer>
+   bool isFarFace(const Facet<Integer>&);
    /// Returns all vertices that lie on the facet (satisfy the inequality with equality).
    template <typename Integer>
    Vertices<Integer> verticesWithZeroDistance(const Vertices<Integer>&, const Facet<Integer>&);
@@ -46,7 +49,10 @@ Matrix<Integer> panda::algorithm::rotation(const Matrix<Integer>& matrix,
    for ( const auto& ridge : ridges )
    {
       const auto new_row = rotate(matrix, furthest_vertex, input, ridge);
-      output.insert(new_row);
+      if ( !isFarFace(new_row) )
+      {
+         output.insert(new_row);
+      }
    }
    return classes(output, maps, tag);
 }
@@ -87,7 +93,13 @@ namespace
    {
       const auto vertices_on_facet = verticesWithZeroDistance(vertices, facet);
       assert( !vertices_on_facet.empty() );
-      return algorithm::fourierMotzkinElimination(vertices_on_facet);
+      return algorithm::fourierMotzkinEliminationWithFarFace(vertices_on_facet);
+   }
+
+   template <typename Integer>
+   bool isFarFace(const Facet<Integer>& facet)
+   {
+      return facet.back() < 0 && std::all_of(facet.cbegin(), facet.cend() - 1, [](const Integer& a) { return a == 0; });
    }
 
    template <typename Integer>
-- 
2.43.0


From 14f11686d488c391d3e72c7b507718011905d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 02/35] fix: adjacency decomposition crashed if no inequality
 is tight or if all tight ones are zero rows

---
 src/algorithm_fourier_motzkin_elimination.cpp | 8 ++++++++
 src/algorithm_rotation.cpp                    | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/algorithm_fourier_motzkin_elimination.cpp b/src/algorithm_fourier_motzkin_elimination.cpp
index a3c1960..7a084ac 100644
--- a/src/algorithm_fourier_motzkin_elimination.cpp
+++ b/src/algorithm_fourier_motzkin_elimination.cpp
@@ -96,6 +96,10 @@ Matrix<Integer> panda::algorithm::fourierMotzkinEliminationWithFarFace(Matrix<In
    matrix = transpose(matrix);
    std::sort(equation_indices.rbegin(), equation_indices.rend());
    const auto equations = extractEquations(matrix, equation_indices);
+   if ( matrix.empty() ) // input consists of zero rows only
+   {
+      return matrix;
+   }
    const auto zero_columns = eliminateZeroColumns(matrix, input);
    assert( std::is_sorted(used_indices.cbegin(), used_indices.cend()) );
    Vertices<Integer> used;
@@ -126,6 +130,10 @@ Matrix<Integer> panda::algorithm::fourierMotzkinEliminationHeuristic(Matrix<Inte
    matrix = transpose(matrix);
    std::sort(equation_indices.rbegin(), equation_indices.rend());
    const auto equations = extractEquations(matrix, equation_indices);
+   if ( matrix.empty() ) // input consists of zero rows only
+   {
+      return matrix;
+   }
    const auto zero_columns = eliminateZeroColumns(matrix, input);
    assert( std::is_sorted(used_indices.cbegin(), used_indices.cend()) );
    Vertices<Integer> used;
diff --git a/src/algorithm_rotation.cpp b/src/algorithm_rotation.cpp
index 54c6391..b9c2971 100644
--- a/src/algorithm_rotation.cpp
+++ b/src/algorithm_rotation.cpp
@@ -92,7 +92,10 @@ namespace
    Inequalities<Integer> getRidges(const Vertices<Integer>& vertices, const Facet<Integer>& facet)
    {
       const auto vertices_on_facet = verticesWithZeroDistance(vertices, facet);
-      assert( !vertices_on_facet.empty() );
+      if ( vertices_on_facet.empty() )
+      {
+         return {};
+      }
       return algorithm::fourierMotzkinEliminationWithFarFace(vertices_on_facet);
    }
 
-- 
2.43.0


From 460865694c79859839f66868303ecf9914f0f9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 03/35] fix: sign of quotients and remainders of BigInteger
 with a big negative dividend

The sign was applied twice to the quotient (so it was lost), and the
remainder of a negative dividend was not reduced into [0, divisor).
---
 src/big_integer.cpp             | 12 +-----------
 src/big_integer_arithmetics.cpp |  6 ++++++
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/big_integer.cpp b/src/big_integer.cpp
index 1e920dc..88e9d82 100644
--- a/src/big_integer.cpp
+++ b/src/big_integer.cpp
@@ -88,6 +88,7 @@ BigInteger panda::abs(BigInteger input) noexcept
 
 BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& second)
 {
+   sign = Sign::Positive;
    if ( isMagnitudeSmallerThan(second) )
    {
       BigInteger remainder = *this;
@@ -99,11 +100,6 @@ BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& se
       *this = BigInteger(1);
       return BigInteger(0);
    }
-   const auto is_negative = isNegative();
-   if ( is_negative )
-   {
-      flipSign();
-   }
    BigInteger result(0);
    BigInteger remainder(0);
    for ( std::size_t it = std::numeric_limits<DataType>::digits * data.size(); it > 0; --it )
@@ -119,12 +115,6 @@ BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& se
          result.data.front() |= 1;
       }
    }
-   if ( is_negative )
-   {
-      result.flipSign();
-      remainder.flipSign();
-      remainder += second;
-   }
    *this = result;
    return remainder;
 }
diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index 211ff32..d212f6e 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -172,7 +172,13 @@ BigInteger& panda::BigInteger::operator%=(const BigInteger& second)
    }
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
+      const auto is_negative = isNegative();
       *this = divideMagnitudesWithRemainder(second);
+      if ( is_negative && !isZero() )
+      {
+         flipSign();
+         *this += second;
+      }
       return *this;
    }
 }
-- 
2.43.0


From e980471873e2dd8d6b504043176a9ccfb361f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 04/35] fix: BigInteger modulo of negative multiples of the
 divisor is zero

---
 src/big_integer_arithmetics.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index d212f6e..bea8be1 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -279,7 +279,8 @@ namespace
       const int a = first;
       const int b = second;
       assert( b > 0 );
-      first = BigInteger(((a < 0) ? b : 0) + (a % b));
+      const int remainder = a % b;
+      first = BigInteger(((remainder < 0) ? b : 0) + remainder);
       return first;
    }
 }
-- 
2.43.0


From 6a34b60705796a0e7819f79d59a230e2c4a8807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 05/35] fix: comparison of BigInteger with the smallest int,
 conversion to the smallest int without overflow

---
 src/big_integer_comparisons.cpp  | 17 +++++++++++++----
 src/big_integer_constructors.cpp |  2 +-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/big_integer_comparisons.cpp b/src/big_integer_comparisons.cpp
index d9b1988..163beb9 100644
--- a/src/big_integer_comparisons.cpp
+++ b/src/big_integer_comparisons.cpp
@@ -7,10 +7,19 @@
 #include "big_integer.h"
 
 #include <algorithm>
-#include <cstdlib>
+#include <cstdint>
 
 using namespace panda;
 
+namespace
+{
+   /// Magnitude of an integer, also valid for the smallest integer.
+   uint_fast32_t magnitude(const int value) noexcept
+   {
+      return (value < 0) ? static_cast<uint_fast32_t>(-(value + 1)) + 1 : static_cast<uint_fast32_t>(value);
+   }
+}
+
 bool panda::BigInteger::operator==(const int value) const noexcept
 {
    if ( data.size() > 1 )
@@ -21,7 +30,7 @@ bool panda::BigInteger::operator==(const int value) const noexcept
    {
       return false;
    }
-   return data[0] == static_cast<decltype(data[0])>(std::abs(value));
+   return data[0] == magnitude(value);
 }
 
 bool panda::BigInteger::operator!=(const int value) const noexcept
@@ -41,7 +50,7 @@ bool panda::BigInteger::operator<(const int value) const noexcept
    }
    if ( sign == Sign::Negative ) // now both have same sign
    {
-      return (data[0] > static_cast<DataType>(std::abs(value)));
+      return (data[0] > magnitude(value));
    }
    return (data[0] < static_cast<DataType>(value));
 }
@@ -58,7 +67,7 @@ bool panda::BigInteger::operator>(const int value) const noexcept
    }
    if ( sign == Sign::Negative ) // now both have same sign
    {
-      return (data[0] < static_cast<DataType>(std::abs(value)));
+      return (data[0] < magnitude(value));
    }
    return (data[0] > static_cast<DataType>(value));
 }
diff --git a/src/big_integer_constructors.cpp b/src/big_integer_constructors.cpp
index 046e606..260b574 100644
--- a/src/big_integer_constructors.cpp
+++ b/src/big_integer_constructors.cpp
@@ -145,7 +145,7 @@ panda::BigInteger::operator int() const
    }
    else
    {
-      return -static_cast<int>(data[0]);
+      return -static_cast<int>(data[0] - 1) - 1;
    }
 }
 
-- 
2.43.0


From 7ed4063ae7a49bd98c46bc4a804ef150b07f009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 06/35] fix: gcd with the smallest value of a builtin integer
 type did not terminate

---
 src/algorithm_integer_operations.cpp | 29 ++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/algorithm_integer_operations.cpp b/src/algorithm_integer_operations.cpp
index bc99540..0e7bef3 100644
--- a/src/algorithm_integer_operations.cpp
+++ b/src/algorithm_integer_operations.cpp
@@ -8,9 +8,9 @@
 #include "algorithm_integer_operations.h"
 #undef COMPILE_TEMPLATE_ALGORITHM_INTEGER_OPERATIONS
 
-#include <cassert>
 #include <cstdint>
 #include <cstdlib>
+#include <type_traits>
 
 using namespace panda;
 
@@ -19,13 +19,18 @@ namespace
    /// optimized gcd for unsigned integer values.
    template <typename Integer>
    Integer unsigned_gcd(Integer, Integer) noexcept;
+   /// gcd for builtin types: the magnitude of the smallest value is only representable without sign.
+   template <typename Integer>
+   Integer gcd(Integer, Integer, std::true_type) noexcept;
+   /// gcd for class types.
+   template <typename Integer>
+   Integer gcd(Integer, Integer, std::false_type) noexcept;
 }
 
 template <typename Integer>
 Integer panda::algorithm::gcd(Integer a, Integer b) noexcept
 {
-   using std::abs;
-   return unsigned_gcd(static_cast<Integer>(abs(a)), static_cast<Integer>(abs(b)));
+   return ::gcd(a, b, std::is_integral<Integer>{});
 }
 
 template <typename Integer>
@@ -43,10 +48,26 @@ short panda::algorithm::abs(const short n)
 
 namespace
 {
+   template <typename Integer>
+   Integer gcd(Integer a, Integer b, std::true_type) noexcept
+   {
+      using Unsigned = typename std::make_unsigned<Integer>::type;
+      const auto magnitude = [](const Integer n)
+      {
+         return static_cast<Unsigned>((n < 0) ? Unsigned{0} - static_cast<Unsigned>(n) : static_cast<Unsigned>(n));
+      };
+      return static_cast<Integer>(unsigned_gcd(magnitude(a), magnitude(b)));
+   }
+
+   template <typename Integer>
+   Integer gcd(Integer a, Integer b, std::false_type) noexcept
+   {
+      return unsigned_gcd(abs(a), abs(b));
+   }
+
    template <typename Integer>
    Integer unsigned_gcd(Integer a, Integer b) noexcept
    {
-      assert( a >= 0 && b >= 0 );
       while ( a != 0 && b != 0 )
       {
          if ( a > b )
-- 
2.43.0


From dcba860c635c191b7e021f56fbc3d056cd213893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 07/35] fix: data race on the set of rows when worker threads
 terminate

---
 src/list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/list.cpp b/src/list.cpp
index 9b36891..bd689d2 100644
--- a/src/list.cpp
+++ b/src/list.cpp
@@ -85,8 +85,8 @@ Row<Integer> panda::List<Integer, TagType>::get() const
 {
    if ( empty() ) // abort
    {
-      const auto it = rows.insert(Row<Integer>{}).first;
       std::unique_lock<std::mutex> lock(mutex);
+      const auto it = rows.insert(Row<Integer>{}).first;
       iterators.push_back(it);
       condition.notify_all();
    }
-- 
2.43.0


From 6dd404116ba415d710152c4d1366f9595c58a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 08/35] fix: normalization of maps with respect to equations
 with leading coefficients other than one and images of several terms

---
 src/algorithm_map_operations.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 1da5567..fced97f 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -119,31 +119,34 @@ namespace
    }
 
    /// Use equation to get eliminated index back to zero.
+   /// The map is scaled by the (absolute value of the) leading coefficient of the equation.
    template <typename Integer>
    void subtractEquation(Map& map, const Index& index, const Equation<Integer>& equation)
    {
       assert( equation[index] != 0 );
+      const Integer sign((equation[index] < 0) ? -1 : 1);
       for ( auto& image : map )
       {
          Image new_image;
          for ( const auto& term : image )
          {
+            const auto coefficient = sign * static_cast<Integer>(term.second);
             if ( term.first == index )
             {
                for ( std::size_t j = index + 1; j < equation.size(); ++j )
                {
                   if ( equation[j] != 0 )
                   {
-                     new_image.push_back(std::make_pair(j, -term.second * equation[j]));
+                     new_image.push_back(std::make_pair(j, static_cast<int>(Integer(-1) * coefficient * equation[j])));
                   }
                }
             }
             else
             {
-               new_image.push_back(term);
+               new_image.push_back(std::make_pair(term.first, static_cast<int>(coefficient * equation[index])));
             }
-            image = new_image;
          }
+         image = new_image;
       }
    }
 
-- 
2.43.0


From 3c5f504e63453f951fb067a2f40a5ff09698379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 09/35] fix: simplification of a map accessed elements out of
 bounds if the first terms of an image cancel

---
 src/algorithm_map_operations.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index fced97f..262d8ad 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -170,20 +170,23 @@ namespace
       for ( auto& image : map )
       {
          std::sort(image.begin(), image.end());
-         for ( std::size_t i = 0; i + 1 < image.size(); ++i )
+         Image simplified;
+         for ( const auto& term : image )
          {
-            if ( image[i].first == image[i + 1].first ) // same Index
+            if ( !simplified.empty() && simplified.back().first == term.first ) // same Index
             {
-               image[i].second += image[i + 1].second; // merge factors
-               image.erase(image.begin() + static_cast<Image::difference_type>(i) + 1);     // erase unused term
-               if ( image[i].second == 0 )
+               simplified.back().second += term.second; // merge factors
+               if ( simplified.back().second == 0 )
                {
-                  image.erase(image.begin() + static_cast<Image::difference_type>(i)); // erase unused item
-                  --i; // decrement i because the current i needs to be revisited
+                  simplified.pop_back(); // erase unused item
                }
-               --i; // decrement i because we erased the next item
+            }
+            else
+            {
+               simplified.push_back(term);
             }
          }
+         image = simplified;
       }
    }
 
-- 
2.43.0


From b5c60a1869eb325ad2d7eebef34e35aed5c11c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 10/35] fix: reduced inequalities are expanded modulo the
 equations (echelon form, normalized rows)

---
 src/input.cpp | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index bfa4f5b..c683699 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -38,6 +38,7 @@ namespace
    void sort(int, char**, Matrix<int>&);
    void expandInequalities(Matrix<int>&, const Maps&);
    void expandVertices(Matrix<int>&, const Maps&);
+   Equations<int> echelonForm(const Equations<int>&);
 
    std::string getFilenameKnownFacets(int, char**);
    std::string getFilenameKnownVertices(int, char**);
@@ -105,7 +106,12 @@ namespace
       {
          std::cerr << "Warning: expanding the reduced input will be invalid, if the polytope is not full dimension (i.e. there are equations).\n";
       }
-      const auto tmp_maps = algorithm::normalize(maps, equations);
+      const auto echelon_form = echelonForm(equations);
+      for ( auto& inequality : inequalities )
+      {
+         inequality = algorithm::normalize(inequality, echelon_form);
+      }
+      const auto tmp_maps = algorithm::normalize(maps, echelon_form);
       expandInequalities(inequalities, tmp_maps);
       return inequalities;
    }
@@ -464,5 +470,29 @@ namespace
       }
       matrix = std::move(all);
    }
-}
 
+   /// Equivalent equations in reduced echelon form with positive leading coefficients (precondition for normalization).
+   Equations<int> echelonForm(const Equations<int>& equations)
+   {
+      Equations<int> result;
+      for ( const auto& equation : equations )
+      {
+         auto row = algorithm::normalize(equation, result);
+         const auto leading = std::find_if(row.cbegin(), row.cend(), [](const int a) { return a != 0; });
+         if ( leading == row.cend() )
+         {
+            continue; // redundant equation.
+         }
+         if ( *leading < 0 )
+         {
+            row *= -1;
+         }
+         for ( auto& other : result )
+         {
+            other = algorithm::normalize(other, Equations<int>{row});
+         }
+         result.push_back(row);
+      }
+      return result;
+   }
+}
-- 
2.43.0


From 199003bf61323f417ce2fa59ac5478211968323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 11/35] fix: reject non-integral tokens in vertices and rays
 instead of silently dropping the rest of the section

---
 src/input_vertex.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/input_vertex.cpp b/src/input_vertex.cpp
index 0fe3c01..19935b2 100644
--- a/src/input_vertex.cpp
+++ b/src/input_vertex.cpp
@@ -96,13 +96,14 @@ ConvexHull<int> panda::input::implementation::verticesConvex(std::istream& strea
 ConvexHull<int> panda::input::implementation::vertices(std::istream& stream)
 {
    ConvexHull<int> conv;
-   while ( stream )
+   while ( stream && !isEndOfFile(stream) )
    {
       const auto vertex = ::vertex(stream);
       if ( !vertex.empty() )
       {
          conv.push_back(vertex);
       }
+      skipEndOfLine(stream);
    }
    return conv;
 }
@@ -117,14 +118,22 @@ namespace
       skipWhitespace(stream);
       Row<int> numerator;
       Row<int> denominator;
-      for ( int tmp; stream >> tmp; )
+      while ( !isEndOfLine(stream) && !isEndOfFile(stream) )
       {
+         int tmp;
+         if ( !(stream >> tmp) )
+         {
+            errorWithLineInformation<std::invalid_argument>("Non-integral token in vertex / ray", id);
+         }
          numerator.push_back(tmp);
          skipWhitespace(stream);
          if ( stream.peek() == '/' )
          {
             stream.get(); // consume division operator
-            stream >> tmp;
+            if ( !(stream >> tmp) )
+            {
+               errorWithLineInformation<std::invalid_argument>("Non-integral denominator in vertex / ray", id);
+            }
             if ( tmp == 0 )
             {
                errorWithLineInformation<std::invalid_argument>("Division by zero", id);
@@ -136,10 +145,6 @@ namespace
             denominator.push_back(1);
          }
          skipWhitespace(stream);
-         if ( stream.peek() == '\n' )
-         {
-            break;
-         }
       }
       assert( numerator.size() == denominator.size() );
       if ( numerator.empty() )
-- 
2.43.0


From 09c83391a6dcf4e3d7725a6351ada2dca8cbf7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 12/35] fix: overflow in the common denominator of vertices and
 rays is an error

---
 src/input_vertex.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/input_vertex.cpp b/src/input_vertex.cpp
index 19935b2..4272eb5 100644
--- a/src/input_vertex.cpp
+++ b/src/input_vertex.cpp
@@ -7,9 +7,12 @@
 #include "input_vertex.h"
 
 #include <cassert>
+#include <cstdint>
+#include <limits>
 #include <stdexcept>
 #include <string>
 
+#include "algorithm_integer_operations.h"
 #include "algorithm_row_operations.h"
 #include "input_common.h"
 #include "input_keywords.h"
@@ -111,6 +114,16 @@ ConvexHull<int> panda::input::implementation::vertices(std::istream& stream)
 namespace
 {
    using namespace input;
+   /// Input data must fit into the type int after multiplication with the common denominator.
+   int checkedCast(const int64_t value, const std::string& id)
+   {
+      if ( value < std::numeric_limits<int>::min() || value > std::numeric_limits<int>::max() )
+      {
+         errorWithLineInformation<std::invalid_argument>("Entries or denominators in vertex / ray are too large", id);
+      }
+      return static_cast<int>(value);
+   }
+
    Row<int> vertex(std::istream& stream)
    {
       skipWhitespace(stream);
@@ -151,15 +164,17 @@ namespace
       {
          return numerator;
       }
-      const auto lcm_value = algorithm::lcm(denominator);
-      if ( lcm_value > 0 )
+      int64_t lcm_value = 1;
+      for ( const auto& entry : denominator )
       {
-         for ( std::size_t i = 0; i < numerator.size(); ++i )
-         {
-            numerator[i] *= lcm_value / denominator[i];
-         }
+         const auto divisor = (entry < 0) ? -static_cast<int64_t>(entry) : static_cast<int64_t>(entry);
+         lcm_value = checkedCast(lcm_value / algorithm::gcd(lcm_value, divisor) * divisor, id);
+      }
+      for ( std::size_t i = 0; i < numerator.size(); ++i )
+      {
+         numerator[i] = checkedCast(static_cast<int64_t>(numerator[i]) * (lcm_value / denominator[i]), id);
       }
-      numerator.push_back(lcm_value);
+      numerator.push_back(static_cast<int>(lcm_value));
       return numerator;
    }
 }
-- 
2.43.0


From 72e01b7ec5c813cac20ed11a0ac55cb1d8cdb1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 13/35] fix: maps need exactly one image per name (endless loop
 without names, silent misinterpretation otherwise)

---
 src/input_map.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/input_map.cpp b/src/input_map.cpp
index df841bf..987c1e2 100644
--- a/src/input_map.cpp
+++ b/src/input_map.cpp
@@ -132,12 +132,21 @@ namespace
       skipWhitespace(stream);
       std::size_t index{0};
       // tokenize (read std::strings from stream before the next line break)
-      while ( stream && !isEndOfLine(stream) && !isEndOfFile(stream) && index < result.size() )
+      while ( stream && !isEndOfLine(stream) && !isEndOfFile(stream) )
       {
+         if ( index == result.size() )
+         {
+            throw std::invalid_argument("Too many images in a map (expected one for each name).");
+         }
          std::string token;
          stream >> token;
          result[index] = image(token, names);
          ++index;
+         skipWhitespace(stream);
+      }
+      if ( index != result.size() )
+      {
+         throw std::invalid_argument("Too few images in a map (expected one for each name).");
       }
       return result;
    }
-- 
2.43.0


From 90408c69541893c2b6667186c2323b53029c0dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 14/35] fix: reject terms with misplaced signs (e.g. 2-x, 3-4,
 x--y) instead of silently dropping a part of the token

---
 src/input_common.cpp                     | 2 +-
 src/input_constraint_named_variables.cpp | 5 +++++
 src/input_map.cpp                        | 5 +++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index 7262f7d..0408850 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -245,7 +245,7 @@ int panda::input::toInt(const std::string& string)
    }
    std::istringstream stream(string);
    int result;
-   if ( !(stream >> result) )
+   if ( !(stream >> result) || stream.peek() != std::istringstream::traits_type::eof() )
    {
       throw std::invalid_argument("toInt: Argument is not an integer.");
    }
diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index 7992977..9ed35c2 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -103,6 +103,11 @@ namespace
          if ( token == "+" || token == "-" )
          {
             bool is_plus = token == "+";
+            skipWhitespace(stream);
+            if ( isEndOfLine(stream) || isEndOfFile(stream) )
+            {
+               errorWithLineInformation<std::invalid_argument>("Excessive \"+\" or \"-\"", id);
+            }
             stream >> token;
             std::tie(index, coefficient) = term(token, names, id);
             if ( coefficient < 0 )
diff --git a/src/input_map.cpp b/src/input_map.cpp
index 987c1e2..0d44a93 100644
--- a/src/input_map.cpp
+++ b/src/input_map.cpp
@@ -104,10 +104,15 @@ namespace
       std::size_t position = 0;
       while ( position != std::string::npos && position < token.size() )
       {
+         const auto start = position;
          const auto factor = extractFactor(token, position);
          const auto variable = extractName(token, position);
          if ( variable.empty() )
          {
+            if ( token.find_first_of("+-", start) == start && token.find_first_of("0123456789", start) != start + 1 )
+            {
+               throw std::invalid_argument("In \"" + token + "\" of a map, a sign is followed by neither a variable nor a number.");
+            }
             // not referring to a name => index == number of names
             result.push_back(std::make_pair(names.size(), factor));
          }
-- 
2.43.0


From 38352ee30832ff67f1213c73421edd40c765860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 15/35] fix: recognize dimension given as DIM=N

---
 src/input_keywords.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/input_keywords.cpp b/src/input_keywords.cpp
index f686e25..b2f2303 100644
--- a/src/input_keywords.cpp
+++ b/src/input_keywords.cpp
@@ -107,14 +107,13 @@ bool panda::input::implementation::isKeywordReducedConvexHull(const std::string&
 
 bool panda::input::implementation::isKeywordDimension(const std::string& string) noexcept
 {
-   return (string == "DIM" ||
-           string == "DIM=" ||
-           string == "DIMENSION" ||
-           string == "DIMENSION=" ||
-           string == "Dim" ||
-           string == "Dim=" ||
-           string == "Dimension" ||
-           string == "Dimension=");
+   // The value of the dimension may follow in the same line, e.g. "DIM=3" or "DIM = 3".
+   const auto assignment = string.find('=');
+   const auto keyword = trimWhitespace(string.substr(0, assignment));
+   return (keyword == "DIM" ||
+           keyword == "DIMENSION" ||
+           keyword == "Dim" ||
+           keyword == "Dimension");
 }
 
 bool panda::input::implementation::isKeywordEquations(const std::string& string) noexcept
-- 
2.43.0


From 15f5141fe675362d7783f886777a62e230a0344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 16/35] fix: check dimensions of equations, known data and of
 rows that maps are applied to

---
 src/input.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/input.cpp b/src/input.cpp
index c683699..a11bb67 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -39,6 +39,8 @@ namespace
    void expandInequalities(Matrix<int>&, const Maps&);
    void expandVertices(Matrix<int>&, const Maps&);
    Equations<int> echelonForm(const Equations<int>&);
+   void checkMapDimension(const Matrix<int>&, const Maps&);
+   void checkKnownDataDimension(const Matrix<int>&, const Matrix<int>&);
 
    std::string getFilenameKnownFacets(int, char**);
    std::string getFilenameKnownVertices(int, char**);
@@ -51,6 +53,7 @@ namespace
    Vertices<int> readVerticesConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       const auto conv = input::implementation::verticesConvex(file);
+      checkMapDimension(conv, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfVertexClasses(conv, maps);
@@ -60,6 +63,7 @@ namespace
    Vertices<int> readVerticesReducedConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       auto conv = input::implementation::verticesConvex(file);
+      checkMapDimension(conv, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input vertices cannot be verified for reduced input.\n";
@@ -70,6 +74,7 @@ namespace
    Vertices<int> readVerticesConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       const auto cone = input::implementation::verticesConical(file);
+      checkMapDimension(cone, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfVertexClasses(cone, maps);
@@ -79,6 +84,7 @@ namespace
    Vertices<int> readVerticesReducedConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       auto cone = input::implementation::verticesConical(file);
+      checkMapDimension(cone, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input rays cannot be verified for reduced input.\n";
@@ -89,6 +95,7 @@ namespace
    Inequalities<int> readInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps)
    {
       const auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
+      checkMapDimension(inequalities, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfInequalityClasses(inequalities, maps);
@@ -98,6 +105,7 @@ namespace
    Inequalities<int> readReducedInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps, const Equations<int>& equations)
    {
       auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
+      checkMapDimension(inequalities, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input inequalities cannot be checked for reduced input.\n";
@@ -106,6 +114,7 @@ namespace
       {
          std::cerr << "Warning: expanding the reduced input will be invalid, if the polytope is not full dimension (i.e. there are equations).\n";
       }
+      checkMapDimension(equations, maps);
       const auto echelon_form = echelonForm(equations);
       for ( auto& inequality : inequalities )
       {
@@ -178,6 +187,7 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
    vertices.insert(vertices.end(), cone.cbegin(), cone.cend());
    vertices.insert(vertices.end(), conv.cbegin(), conv.cend());
    auto known_facets = knownFacets(argc, argv, names);
+   checkKnownDataDimension(known_facets, vertices);
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfInequalities(vertices, known_facets);
@@ -241,10 +251,12 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       inequalities.push_back(equation);
       inequalities.push_back(-1 * equation);
    }
+   implementation::checkConsistency(inequalities, names, dimension); // again, because of the equations.
    sort(argc, argv, inequalities);
    inequalities.emplace_back(inequalities.back().size(), 0);
    inequalities.back().back() = -1;
    auto known_vertices = knownVertices(argc, argv);
+   checkKnownDataDimension(known_vertices, inequalities);
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfVertices(inequalities, known_vertices);
@@ -471,6 +483,32 @@ namespace
       matrix = std::move(all);
    }
 
+   /// Maps can only be applied to rows of the same dimension.
+   void checkMapDimension(const Matrix<int>& matrix, const Maps& maps)
+   {
+      for ( const auto& row : matrix )
+      {
+         for ( const auto& map : maps )
+         {
+            if ( row.size() != map.size() )
+            {
+               throw std::invalid_argument("Invalid input data: Inconsistent dimensions (a map does not match the length of rows).");
+            }
+         }
+      }
+   }
+
+   void checkKnownDataDimension(const Matrix<int>& known_data, const Matrix<int>& input)
+   {
+      for ( const auto& row : known_data )
+      {
+         if ( row.size() != input.front().size() )
+         {
+            throw std::invalid_argument("Invalid input data: Inconsistent dimensions (known data does not match the length of rows).");
+         }
+      }
+   }
+
    /// Equivalent equations in reduced echelon form with positive leading coefficients (precondition for normalization).
    Equations<int> echelonForm(const Equations<int>& equations)
    {
-- 
2.43.0


From dc46fcd07542b26edf3e47520229cb1d929cc112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 17/35] fix: reduced inequalities without maps are rejected
 before equations are used

---
 src/input.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input.cpp b/src/input.cpp
index a11bb67..8b8d0ad 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -115,7 +115,7 @@ namespace
          std::cerr << "Warning: expanding the reduced input will be invalid, if the polytope is not full dimension (i.e. there are equations).\n";
       }
       checkMapDimension(equations, maps);
-      const auto echelon_form = echelonForm(equations);
+      const auto echelon_form = maps.empty() ? Equations<int>{} : echelonForm(equations); // expansion fails without maps.
       for ( auto& inequality : inequalities )
       {
          inequality = algorithm::normalize(inequality, echelon_form);
-- 
2.43.0


From 05014162de54c33ea21a96f6f7337426de284de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 18/35] fix: options of the form -t=5 do not consume the next
 argument

---
 src/input_detection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index dad421b..e4ac1c9 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -126,7 +126,8 @@ namespace
 {
    bool requiresParameter(char* argument) noexcept
    {
-      return (std::strcmp(argument, "-c") != 0 && // --check
+      return (std::strchr(argument, '=') == nullptr && // -option=parameter
+              std::strcmp(argument, "-c") != 0 && // --check
               std::strcmp(argument, "-f") != 0);  // --filter
    }
 
-- 
2.43.0


From d556bfec61c7f9ea237df6a766079e9e13bee3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 19/35] fix: --checked (as documented by --help=check) enables
 the check

---
 src/input_validity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_validity.cpp b/src/input_validity.cpp
index 74b25e8..65ed969 100644
--- a/src/input_validity.cpp
+++ b/src/input_validity.cpp
@@ -106,7 +106,7 @@ bool panda::input::checkValidity(int argc, char** argv) noexcept
 {
    for ( int i = 1; i < argc; ++i )
    {
-      if ( std::strcmp(argv[i], "-c") == 0 || std::strcmp(argv[i], "--check") == 0 )
+      if ( std::strcmp(argv[i], "-c") == 0 || std::strcmp(argv[i], "--check") == 0 || std::strcmp(argv[i], "--checked") == 0 )
       {
          return true;
       }
-- 
2.43.0


From e5c581918409ddd0f24d9378aad83a106306aa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 20/35] fix: --check compares rows up to positive multiples and
 duplicates

---
 src/input_validity.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/input_validity.cpp b/src/input_validity.cpp
index 65ed969..da3b849 100644
--- a/src/input_validity.cpp
+++ b/src/input_validity.cpp
@@ -24,6 +24,7 @@ namespace
    bool inequalityIsValid(const Matrix<int>&, const Inequality<int>&, const std::size_t);
    void checkValidityOfInequality(const Matrix<int>&, const Inequality<int>&, const std::size_t);
    void checkValidityOfVertex(const Matrix<int>&, const Vertex<int>&, const std::size_t);
+   Matrix<int> distinctRows(Matrix<int>);
    void checkValidityInequalities(const Matrix<int>&, const Map&);
    void checkValidityVertices(const Matrix<int>&, const Map&);
 }
@@ -213,8 +214,26 @@ namespace
       }
    }
 
-   void checkValidityInequalities(const Matrix<int>& matrix, const Map& map)
+   /// Images of maps are divided by their gcd and a bijection is defined on the set of rows,
+   /// hence neither multiples nor duplicates may be considered to be different rows.
+   Matrix<int> distinctRows(Matrix<int> matrix)
    {
+      for ( auto& row : matrix )
+      {
+         const auto gcd_value = algorithm::gcd(row);
+         if ( gcd_value > 1 )
+         {
+            row /= gcd_value;
+         }
+      }
+      std::sort(matrix.begin(), matrix.end());
+      matrix.erase(std::unique(matrix.begin(), matrix.end()), matrix.end());
+      return matrix;
+   }
+
+   void checkValidityInequalities(const Matrix<int>& input, const Map& map)
+   {
+      const auto matrix = distinctRows(input);
       std::vector<std::size_t> indices(matrix.size());
       for ( std::size_t i = 0; i < matrix.size(); ++i )
       {
@@ -241,8 +260,9 @@ namespace
       }
    }
 
-   void checkValidityVertices(const Matrix<int>& matrix, const Map& map)
+   void checkValidityVertices(const Matrix<int>& input, const Map& map)
    {
+      const auto matrix = distinctRows(input);
       std::vector<std::size_t> indices(matrix.size());
       for ( std::size_t i = 0; i < matrix.size(); ++i )
       {
-- 
2.43.0


From 19e2326598b83252194bb81794ccbae1a097670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 21/35] fix: only the current row decides whether names are
 used in it

---
 src/input_common.cpp | 13 +++++++------
 src/input_common.h   |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index 0408850..0417526 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -194,14 +194,15 @@ std::string panda::input::trimWhitespace(std::string string)
    return string;
 }
 
-bool panda::input::containsNames(const Names& names, std::istream& stream)
+bool panda::input::containsNames(const Names& names, std::istream& input_stream)
 {
-   const auto stream_position = stream.tellg();
-   const auto guard = makeScopeGuard([&]()
+   // only the current row is relevant: other rows, sections or keywords may well contain (parts of) names.
+   std::istringstream stream(peekLine(input_stream));
+   skipWhitespace(stream);
+   if ( isIdentifier(stream) )
    {
-      stream.clear();
-      stream.seekg(stream_position);
-   });
+      identifier(stream);
+   }
    std::size_t counter = 0;
    constexpr std::size_t max_counter = 2000; // this constant is actually arbitrary. We simply assume that if the first 2000 tokens do not contain a name, it will hold for the rest as well.
    while ( stream && counter < max_counter )
diff --git a/src/input_common.h b/src/input_common.h
index 46a554d..3fba471 100644
--- a/src/input_common.h
+++ b/src/input_common.h
@@ -49,7 +49,7 @@ namespace panda
       /// Trims trailing and leading whitespace.
       std::string trimWhitespace(std::string);
 
-      /// Returns if any of the names occurs in the rest of the stream.
+      /// Returns if any of the names occurs in the rest of the line.
       bool containsNames(const Names&, std::istream&);
 
       /// Throws and exception of type ExceptionType with a message (first argument)
-- 
2.43.0


From af594144cd6979a7a9d91dd73e59c978101ddd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 22/35] fix: reject coefficients whose negation is not
 representable

---
 src/input_constraint_named_variables.cpp   | 5 +++++
 src/input_constraint_unnamed_variables.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index 9ed35c2..a416785 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -9,6 +9,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cstddef>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -49,6 +50,10 @@ namespace
       assert( !token.empty() );
       const auto end_of_factor = token.find_first_not_of("+-0123456789");
       const auto factor = toInt(token.substr(0, end_of_factor));
+      if ( factor == std::numeric_limits<int>::min() ) // neither the right hand side nor an inverted row is representable.
+      {
+         errorWithLineInformation<std::invalid_argument>("Coefficient is too small", id);
+      }
       if ( end_of_factor == std::string::npos ) // this is the RHS (because there is no name).
       {
          // c.f. algorithm_inequality_operations.tpp: the rhs is stored negated.
diff --git a/src/input_constraint_unnamed_variables.cpp b/src/input_constraint_unnamed_variables.cpp
index 92beebc..3ef30ae 100644
--- a/src/input_constraint_unnamed_variables.cpp
+++ b/src/input_constraint_unnamed_variables.cpp
@@ -6,6 +6,7 @@
 
 #include "input_constraint_unnamed_variables.h"
 
+#include <limits>
 #include <stdexcept>
 
 #include "input_common.h"
@@ -69,6 +70,10 @@ namespace
             {
                errorWithLineInformation<std::invalid_argument>("Non-integral token in inequality", id);
             }
+            if ( coefficient == std::numeric_limits<int>::min() ) // neither the right hand side nor an inverted row is representable.
+            {
+               errorWithLineInformation<std::invalid_argument>("Coefficient is too small", id);
+            }
             if ( has_rhs )
             {
                errorWithLineInformation<std::invalid_argument>("Only one coefficient allowed on right hand side", id);
-- 
2.43.0


From 33b30507f6b35cc1b414ff1f8448485d02080769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 23/35] fix: overflow when the right hand side of a named
 inequality is printed

---
 src/algorithm_row_operations.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm_row_operations.cpp b/src/algorithm_row_operations.cpp
index 80bc075..c6061b4 100644
--- a/src/algorithm_row_operations.cpp
+++ b/src/algorithm_row_operations.cpp
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cstddef>
+#include <cstdint>
 #include <iostream>
 #include <numeric>
 #include <stdexcept>
@@ -88,7 +89,7 @@ void panda::algorithm::prettyPrint(std::ostream& output, const Row<int>& row, co
          printed_something = true;
       }
    }
-   output << ' ' << relation << ' ' << algorithm::rhs(row);
+   output << ' ' << relation << ' ' << -static_cast<int64_t>(row.back()); // the rhs is stored negated; the negated value does not necessarily fit into type int.
 }
 
 template <typename Integer>
-- 
2.43.0


From fff142215b0653277b4ad7e29850ba100eead864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 24/35] fix: names that are a proper prefix of a previously
 declared name are recognized

---
 src/input_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index 0417526..46a6ffa 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -214,7 +214,7 @@ bool panda::input::containsNames(const Names& names, std::istream& input_stream)
          const auto character = static_cast<char>(stream.get());
          word.append(1, character);
          position = std::find_if(names.cbegin(), names.cend(), [&] (const Name& name) { return word.size() <= name.size() && name.substr(0, word.size()) == word; });
-         if ( position != names.cend() && *position == word ) // match!
+         if ( std::find(names.cbegin(), names.cend(), word) != names.cend() ) // match!
          {
             return true;
          }
-- 
2.43.0


From b46a9fec55da79a332d2f31f4b32ed4fa88ff3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 25/35] fix: a denominator is not read from the following line

---
 src/input_vertex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input_vertex.cpp b/src/input_vertex.cpp
index 4272eb5..9204b3e 100644
--- a/src/input_vertex.cpp
+++ b/src/input_vertex.cpp
@@ -143,7 +143,8 @@ namespace
          if ( stream.peek() == '/' )
          {
             stream.get(); // consume division operator
-            if ( !(stream >> tmp) )
+            skipWhitespace(stream);
+            if ( isEndOfLine(stream) || !(stream >> tmp) )
             {
                errorWithLineInformation<std::invalid_argument>("Non-integral denominator in vertex / ray", id);
             }
-- 
2.43.0


From acb41f1d1229977bdab9b0fcaee8a93b8ef349c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 26/35] fix: casts between integer types do not silently
 truncate (e.g. printing 64 bit results)

---
 src/cast.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cast.cpp b/src/cast.cpp
index e8df187..99c304a 100644
--- a/src/cast.cpp
+++ b/src/cast.cpp
@@ -9,6 +9,7 @@
 #undef COMPILE_TEMPLATE_CAST
 
 #include <cstddef>
+#include <stdexcept>
 
 using namespace panda;
 
@@ -31,7 +32,12 @@ Row<Integer> panda::cast(const Row<OriginalType>& input)
    output.reserve(input.size());
    for ( const auto& element : input )
    {
-      output.push_back(Integer(element));
+      const Integer value(element);
+      if ( OriginalType(value) != element )
+      {
+         throw std::overflow_error("Value is not representable in the target type of a cast.");
+      }
+      output.push_back(value);
    }
    return output;
 }
-- 
2.43.0


From 12e999baf613964a0913178e0a2197a87532d34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 27/35] fix: a *= a and a /= a for big numbers a of type
 BigInteger

---
 src/big_integer_arithmetics.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index bea8be1..8d6fc1a 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -29,6 +29,11 @@ namespace
 
 BigInteger& panda::BigInteger::operator*=(const BigInteger& second)
 {
+   if ( this == &second )
+   {
+      const auto copy = second; // second must not change while the result is calculated
+      return *this *= copy;
+   }
    if ( isZero() || second.isZero() )
    {
       this->setZero();
@@ -71,6 +76,11 @@ BigInteger& panda::BigInteger::operator*=(const BigInteger& second)
 
 BigInteger& panda::BigInteger::operator/=(const BigInteger& second)
 {
+   if ( this == &second )
+   {
+      const auto copy = second; // second must not change while the result is calculated
+      return *this /= copy;
+   }
    if ( second.isZero() )
    {
       throw std::invalid_argument("Integer division by 0 in \"BigInteger::operator/\".");
-- 
2.43.0


From 04fafc05798b9e9fb227e2c6c293252e735782ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 28/35] fix: -i 16, -i 32 and -i 64 depended on <cstdint> being
 included by another header (rejected if compiled by clang)

---
 src/integer_type_detection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/integer_type_detection.cpp b/src/integer_type_detection.cpp
index 2537363..24b2bca 100644
--- a/src/integer_type_detection.cpp
+++ b/src/integer_type_detection.cpp
@@ -7,6 +7,7 @@
 #include "integer_type_detection.h"
 
 #include <cassert>
+#include <cstdint>
 #include <cstring>
 #include <stdexcept>
 #include <string>
-- 
2.43.0


From 6629d525a43223fc52af79734ab199f0011b7c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 29/35] fix: known vertices were processed asynchronously with
 a dangling reference to a temporary

---
 src/method_adjacency_decomposition_implementation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/method_adjacency_decomposition_implementation.cpp b/src/method_adjacency_decomposition_implementation.cpp
index f5ff76e..27a0429 100644
--- a/src/method_adjacency_decomposition_implementation.cpp
+++ b/src/method_adjacency_decomposition_implementation.cpp
@@ -167,9 +167,9 @@ namespace
    }
 
    template <typename Integer>
-   std::future<void> initializePool(JobManager<Integer, tag::vertex>& manager, const Matrix<Integer>& matrix, const Maps& maps, const Matrix<Integer>& known_output, const Equations<Integer>&)
+   std::future<void> initializePool(JobManager<Integer, tag::vertex>& manager, const Matrix<Integer>& matrix, const Maps& maps, const Matrix<Integer>& known_output, const Equations<Integer>& equations)
    {
-      return initializationOnMaster(manager, matrix, maps, known_output, {}, "Vertices / Rays");
+      return initializationOnMaster(manager, matrix, maps, known_output, equations, "Vertices / Rays"); // equations (none) are used asynchronously, i.e. a temporary must not be passed.
    }
 
    template <typename Integer, typename TagType>
-- 
2.43.0


From f2caa67ee723c61fe873b4a4d67e348e8b6704d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 30/35] fix: -c computed distances and ranks in int (false
 verdicts for large numbers regardless of -i)

---
 src/input_validity.cpp | 50 +++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/input_validity.cpp b/src/input_validity.cpp
index da3b849..0a1382d 100644
--- a/src/input_validity.cpp
+++ b/src/input_validity.cpp
@@ -16,15 +16,24 @@
 #include "algorithm_map_operations.h"
 #include "algorithm_matrix_operations.h"
 #include "algorithm_row_operations.h"
+#include "big_integer.h"
 
 using namespace panda;
 
 namespace
 {
+   #ifdef NO_FLEXIBILITY
+   using ExactInteger = int;
+   #else
+   /// The entries fit into an int, but distances, ranks and images under maps need not.
+   using ExactInteger = BigInteger;
+   #endif
+   Row<ExactInteger> exact(const Row<int>&);
+   Matrix<ExactInteger> exact(const Matrix<int>&);
    bool inequalityIsValid(const Matrix<int>&, const Inequality<int>&, const std::size_t);
    void checkValidityOfInequality(const Matrix<int>&, const Inequality<int>&, const std::size_t);
    void checkValidityOfVertex(const Matrix<int>&, const Vertex<int>&, const std::size_t);
-   Matrix<int> distinctRows(Matrix<int>);
+   Matrix<ExactInteger> distinctRows(Matrix<ExactInteger>);
    void checkValidityInequalities(const Matrix<int>&, const Map&);
    void checkValidityVertices(const Matrix<int>&, const Map&);
 }
@@ -36,7 +45,7 @@ void panda::input::implementation::checkValidityOfInequalities(const Matrix<int>
    {
       return;
    }
-   const auto dimension = algorithm::dimension(matrix);
+   const auto dimension = algorithm::dimension(exact(matrix));
    for ( const auto& inequality : inequalities )
    {
       ::checkValidityOfInequality(matrix, inequality, dimension);
@@ -50,7 +59,7 @@ void panda::input::implementation::checkValidityOfVertices(const Matrix<int>& ma
    {
       return;
    }
-   const auto dimension = algorithm::dimension(matrix);
+   const auto dimension = algorithm::dimension(exact(matrix));
    for ( const auto& vertex : vertices )
    {
       ::checkValidityOfVertex(matrix, vertex, dimension);
@@ -82,7 +91,7 @@ void panda::input::implementation::filterInvalidInequalities(const Matrix<int>&
    {
       return;
    }
-   const auto dimension = algorithm::dimension(matrix);
+   const auto dimension = algorithm::dimension(exact(matrix));
    for ( auto it = inequalities.begin(); it != inequalities.end(); )
    {
       const auto& inequality = *it;
@@ -129,6 +138,21 @@ bool panda::input::filterInvalidInput(int argc, char** argv) noexcept
 
 namespace
 {
+   Row<ExactInteger> exact(const Row<int>& row)
+   {
+      return Row<ExactInteger>(row.cbegin(), row.cend());
+   }
+
+   Matrix<ExactInteger> exact(const Matrix<int>& matrix)
+   {
+      Matrix<ExactInteger> result;
+      for ( const auto& row : matrix )
+      {
+         result.push_back(exact(row));
+      }
+      return result;
+   }
+
    bool inequalityIsValid(const Matrix<int>& matrix, const Inequality<int>& inequality, const std::size_t dimension)
    {
       // identify vertices and rays that satisfy the inequality with equality
@@ -136,7 +160,7 @@ namespace
       Matrix<int> active;
       for ( const auto& row : matrix )
       {
-         const auto dist = algorithm::distance(inequality, row);
+         const auto dist = algorithm::distance(exact(inequality), exact(row));
          if ( dist < 0 )
          {
             return false;
@@ -147,7 +171,7 @@ namespace
          }
       }
       // The resulting set of active vertices must be non-empty and have the correct dimension.
-      return !active.empty() && (algorithm::dimension(active) + 1 == dimension);
+      return !active.empty() && (algorithm::dimension(exact(active)) + 1 == dimension);
    }
 
    void checkValidityOfInequality(const Matrix<int>& matrix, const Inequality<int>& inequality, const std::size_t dimension)
@@ -157,7 +181,7 @@ namespace
       Matrix<int> active;
       for ( const auto& row : matrix )
       {
-         const auto dist = algorithm::distance(inequality, row);
+         const auto dist = algorithm::distance(exact(inequality), exact(row));
          if ( dist < 0 )
          {
             std::stringstream stream;
@@ -175,7 +199,7 @@ namespace
          stream << "The inequality " << inequality << " is a valid inequality, but does not define a facet, as it is a strict inequality.";
          throw std::invalid_argument(stream.str());
       }
-      if ( algorithm::dimension(active) + 1 != dimension )
+      if ( algorithm::dimension(exact(active)) + 1 != dimension )
       {
          std::stringstream stream;
          stream << "The inequality " << inequality << " is not a facet, but only a lower-dimensional face.";
@@ -188,7 +212,7 @@ namespace
       Matrix<int> active;
       for ( const auto& row : matrix )
       {
-         const auto dist = algorithm::distance(row, vertex);
+         const auto dist = algorithm::distance(exact(row), exact(vertex));
          if ( dist < 0 )
          {
             std::stringstream stream;
@@ -206,7 +230,7 @@ namespace
          stream << "The row " << vertex << " is a valid vector, but is not extremal.";
          throw std::invalid_argument(stream.str());
       }
-      if ( algorithm::dimension(active) + 1 != dimension )
+      if ( algorithm::dimension(exact(active)) + 1 != dimension )
       {
          std::stringstream stream;
          stream << "The row " << vertex << " is not extremal.";
@@ -216,7 +240,7 @@ namespace
 
    /// Images of maps are divided by their gcd and a bijection is defined on the set of rows,
    /// hence neither multiples nor duplicates may be considered to be different rows.
-   Matrix<int> distinctRows(Matrix<int> matrix)
+   Matrix<ExactInteger> distinctRows(Matrix<ExactInteger> matrix)
    {
       for ( auto& row : matrix )
       {
@@ -233,7 +257,7 @@ namespace
 
    void checkValidityInequalities(const Matrix<int>& input, const Map& map)
    {
-      const auto matrix = distinctRows(input);
+      const auto matrix = distinctRows(exact(input));
       std::vector<std::size_t> indices(matrix.size());
       for ( std::size_t i = 0; i < matrix.size(); ++i )
       {
@@ -262,7 +286,7 @@ namespace
 
    void checkValidityVertices(const Matrix<int>& input, const Map& map)
    {
-      const auto matrix = distinctRows(input);
+      const auto matrix = distinctRows(exact(input));
       std::vector<std::size_t> indices(matrix.size());
       for ( std::size_t i = 0; i < matrix.size(); ++i )
       {
-- 
2.43.0


From 9be1884c48e3e2da75b347f3a2f9bd21166b1208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:40 +0000
Subject: [PATCH 31/35] fix: report failure if the output could not be written
 completely

---
 src/main.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 7a911d8..a075f7a 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -19,6 +19,8 @@ namespace
 {
    void printHelp() noexcept;
    void printVersion() noexcept;
+   /// Returns the (exit) status, or a failure if the output couldn't be written completely.
+   int checkOutput(int status);
 }
 
 int main(int argc, char** argv)
@@ -28,11 +30,11 @@ int main(int argc, char** argv)
    {
       case OperationMode::FacetEnumeration:
       {
-         return method::facetEnumeration(argc, argv);
+         return checkOutput(method::facetEnumeration(argc, argv));
       }
       case OperationMode::VertexEnumeration:
       {
-         return method::vertexEnumeration(argc, argv);
+         return checkOutput(method::vertexEnumeration(argc, argv));
       }
       case OperationMode::HelpCommand:
       {
@@ -102,5 +104,15 @@ namespace
                 << project::application_name << " (revision "
                 << project::git_revision << ")\n";
    }
+
+   int checkOutput(const int status)
+   {
+      if ( status == 0 && !std::cout.flush() )
+      {
+         std::cerr << "The output couldn't be written completely.\n";
+         return 1;
+      }
+      return status;
+   }
 }
 
-- 
2.43.0


From 059e60a729b61b66539eda7d835fd7c7708b50c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:40 +0000
Subject: [PATCH 32/35] fix: do not mistake a read error for the end of the
 input

---
 src/input.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input.cpp b/src/input.cpp
index 8b8d0ad..1b44a38 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -135,6 +135,7 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
    {
       throw std::invalid_argument("Failed to open file \"" + filename + "\".");
    }
+   file.exceptions(std::ifstream::badbit); // a read error must not be mistaken for the end of the file.
    ConvexHull<int> conv;
    ConvexHull<int> cone;
    std::size_t dimension = std::numeric_limits<std::size_t>::max();
@@ -204,6 +205,7 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
    {
       throw std::invalid_argument("Failed to open file \"" + filename + "\".");
    }
+   file.exceptions(std::ifstream::badbit); // a read error must not be mistaken for the end of the file.
    Equations<int> equations;
    Inequalities<int> inequalities;
    std::size_t dimension = std::numeric_limits<std::size_t>::max();
@@ -350,6 +352,7 @@ namespace
       {
          throw std::invalid_argument("Failed to open file \"" + filename + "\".");
       }
+      file.exceptions(std::ifstream::badbit); // a read error must not be mistaken for the end of the file.
       std::string token;
       input::advanceToNextKeyword(file, token);
       if ( input::implementation::isKeywordInequalities(token) )
@@ -371,6 +374,7 @@ namespace
       {
          throw std::invalid_argument("Failed to open file \"" + filename + "\".");
       }
+      file.exceptions(std::ifstream::badbit); // a read error must not be mistaken for the end of the file.
       Vertices<int> conv;
       Vertices<int> cone;
       for ( std::string token; input::advanceToNextKeyword(file, token); )
-- 
2.43.0


From 1ff6e428623afaeb2b137ec03b2fc27dc28822b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:40 +0000
Subject: [PATCH 33/35] fix: a moved-from DelayedAction must not perform its
 action again

---
 src/delayed_action.h   |  4 ++--
 src/delayed_action.tpp | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/delayed_action.h b/src/delayed_action.h
index d73c43a..f841083 100644
--- a/src/delayed_action.h
+++ b/src/delayed_action.h
@@ -42,8 +42,8 @@ namespace panda
          ~DelayedAction();
          /// Deleted copy constructor.
          DelayedAction(const DelayedAction&) = delete;
-         /// Default move constructor.
-         DelayedAction(DelayedAction&&) = default;
+         /// Move constructor. The action is not performed by the moved-from object.
+         DelayedAction(DelayedAction&&);
          /// If the delayed action is dismissed, the action will not be performed
          /// no matter how the scope is exited.
          void dismiss() noexcept;
diff --git a/src/delayed_action.tpp b/src/delayed_action.tpp
index e98d551..e3d3d70 100644
--- a/src/delayed_action.tpp
+++ b/src/delayed_action.tpp
@@ -38,6 +38,17 @@ panda::DelayedAction<Runnable>::DelayedAction(Runnable&& runnable_, std::chrono:
 {
 }
 
+template <typename Runnable>
+panda::DelayedAction<Runnable>::DelayedAction(DelayedAction&& other)
+:
+   dismissed(other.dismissed),
+   runnable(std::forward<Runnable>(other.runnable)),
+   start(other.start),
+   minimum_waiting_time(other.minimum_waiting_time)
+{
+   other.dismissed = true;
+}
+
 template <typename Runnable>
 panda::DelayedAction<Runnable>::~DelayedAction()
 {
-- 
2.43.0


From bb21e919473e8ee56af062878609dd1d876a1329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:48 +0000
Subject: [PATCH 34/35] fix: (MPI) a result without rows was accessed out of
 bounds

---
 src/communication.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/communication.cpp b/src/communication.cpp
index 5722b37..5a2416f 100644
--- a/src/communication.cpp
+++ b/src/communication.cpp
@@ -88,7 +88,7 @@ void panda::Communication::toMaster(const Matrix<int>& matrix) const
    { // post sends, scoped because we only hold the lock for as long the MPI calls last.
       std::lock_guard<std::mutex> lock(mutex);
       const auto size = matrix.size();
-      const auto row_size = matrix.back().size();
+      const auto row_size = matrix.empty() ? 0 : matrix.back().size();
       requests.emplace_back(send(&size, sizeof(decltype(size)), Master, tag::matrix));
       requests.emplace_back(send(&row_size, sizeof(decltype(row_size)), Master, tag::matrix));
       for ( const auto& row : matrix )
-- 
2.43.0


From 5dca756ed858468177316df016cb77849ebb015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:48 +0000
Subject: [PATCH 35/35] fix: (MPI) buffers of pending sends were destroyed
 before the sends completed

---
 src/communication.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/communication.cpp b/src/communication.cpp
index 5a2416f..adfb1aa 100644
--- a/src/communication.cpp
+++ b/src/communication.cpp
@@ -85,10 +85,10 @@ void panda::Communication::toMaster(const Matrix<int>& matrix) const
 {
    std::vector<MPI_Request> requests;
    requests.reserve(2 + matrix.size());
+   const auto size = matrix.size(); // the buffers of all sends must not be destroyed before the requests complete.
+   const auto row_size = matrix.empty() ? 0 : matrix.back().size();
    { // post sends, scoped because we only hold the lock for as long the MPI calls last.
       std::lock_guard<std::mutex> lock(mutex);
-      const auto size = matrix.size();
-      const auto row_size = matrix.empty() ? 0 : matrix.back().size();
       requests.emplace_back(send(&size, sizeof(decltype(size)), Master, tag::matrix));
       requests.emplace_back(send(&row_size, sizeof(decltype(row_size)), Master, tag::matrix));
       for ( const auto& row : matrix )
-- 
2.43.0

