From 8ce09d526c62ce35bd908b98ddd818b89874e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:58 +0000
Subject: [PATCH 01/48] fix: transform: do not write past the basis values of
 degree 0

---
 cpp/src/hermite/transform.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hermite/transform.cpp b/cpp/src/hermite/transform.cpp
index 2e3677a..e258dd2 100644
--- a/cpp/src/hermite/transform.cpp
+++ b/cpp/src/hermite/transform.cpp
@@ -77,7 +77,8 @@ vec _transform(
     c_cube bases_functions_1d(dim);
     for (i = 0; i < dim; ++i)
     {
-        bases_functions_1d[i] = mat(n_points[i], vec(degree + 1, 0));
+        // hermite_eval always sets the first two values
+        bases_functions_1d[i] = mat(n_points[i], vec(degree > 0 ? degree + 1 : 2, 0));
 
         for (j = 0; j < n_points[i]; j++)
         {
-- 
2.43.0


From c7a987ab8c72c121cc03c0fea71ae9db1facda5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:22 +0000
Subject: [PATCH 02/48] fix: get_degree: do not evaluate set sizes that
 overflow, in high dimension

---
 cpp/src/hermite/lib.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hermite/lib.cpp b/cpp/src/hermite/lib.cpp
index 20ce791..2978858 100644
--- a/cpp/src/hermite/lib.cpp
+++ b/cpp/src/hermite/lib.cpp
@@ -85,7 +85,11 @@ string hash_print(const ivec & v)
 
 u_int pos_bissect(u_int image, std::function<u_int(u_int)> f, u_int max)
 {
-    u_int x1 = 0, x2 = max;
+    // Bracket the solution first, because far beyond it f can overflow (or
+    // take very long to calculate).
+    u_int x1 = 0, x2 = 1;
+    while (x2 < max && f(x2) < image)
+        x2 = 2*x2 < max ? 2*x2 : max;
 
     long img_1 = (long) f(x1) - (long) image;
     long img_2 = (long) f(x2) - (long) image;
-- 
2.43.0


From d1a0a32bb97fc41805c30a2267066efa969f9c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:51 +0000
Subject: [PATCH 03/48] fix: raise on invalid index sets, sizes and Fourier
 degrees instead of ending the process

---
 cpp/src/hermite/inner.cpp     |  3 ++-
 cpp/src/hermite/iterators.cpp |  4 +++-
 cpp/src/hermite/lib.cpp       | 10 ++++------
 cpp/src/hermite/project.cpp   |  5 +++--
 cpp/src/hermite/tensorize.cpp |  7 ++++---
 cpp/src/hermite/transform.cpp |  6 +++---
 cpp/src/hermite/varf.cpp      | 12 +++++-------
 7 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/cpp/src/hermite/inner.cpp b/cpp/src/hermite/inner.cpp
index 6c48c2b..36935c1 100644
--- a/cpp/src/hermite/inner.cpp
+++ b/cpp/src/hermite/inner.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
 #include <assert.h>
 
 #ifdef DEBUG
@@ -228,7 +229,7 @@ vec inner(const vec & s1,
     else if (index_set == "cross_nc") function = inner<Cross_iterator_nc>;
     else if (index_set == "cube") function = inner<Cube_iterator>;
     else if (index_set == "rectangle") function = inner<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(s1, s2, dirs1, dirs2);
 }
 
diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index 0e9069b..e43c586 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
 #include <assert.h>
 #include <unordered_map>
 #include "hermite/io.hpp"
@@ -411,7 +412,8 @@ imat Cross_iterator::s_list(u_int dim, u_int degree)
 u_int Cross_iterator::s_get_degree(u_int dim, u_int n_polys)
 {
     Cross_iterator m(dim, DEGREE_BISSECT_MAX);
-    assert (n_polys <= m.list.size());
+    if (n_polys == 0 || n_polys > m.list.size())
+        throw std::invalid_argument("No degree for this number of polynomials!");
     return m.list[n_polys - 1][0];
 }
 
diff --git a/cpp/src/hermite/lib.cpp b/cpp/src/hermite/lib.cpp
index 2978858..2b6f039 100644
--- a/cpp/src/hermite/lib.cpp
+++ b/cpp/src/hermite/lib.cpp
@@ -18,6 +18,8 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
+
 #include "hermite/iterators.hpp"
 #include "hermite/lib.hpp"
 #include "hermite/types.hpp"
@@ -96,10 +98,7 @@ u_int pos_bissect(u_int image, std::function<u_int(u_int)> f, u_int max)
 
     if (img_1 > 0 || img_2 < 0)
     {
-        std::cout << "Can't find x, Invalid arguments!" << std::endl;
-        std::cout << "-> x1: " << x1 << ", img_1: " << f(x1) << std::endl;
-        std::cout << "-> x2: " << x2 << ", img_2: " << f(x2) << std::endl;
-        exit(0);
+        throw std::invalid_argument("Can't find x, Invalid arguments!");
     }
 
     if (img_1 == 0)
@@ -117,8 +116,7 @@ u_int pos_bissect(u_int image, std::function<u_int(u_int)> f, u_int max)
         {
             if (new_x == x1)
             {
-                std::cout << "[lib.cpp:pos_bissect] Can't find x, infinite loop!" << std::endl;
-                exit(1);
+                throw std::invalid_argument("[lib.cpp:pos_bissect] Can't find x!");
             }
 
             x1 = new_x;
diff --git a/cpp/src/hermite/project.cpp b/cpp/src/hermite/project.cpp
index c382cfa..cc7dc1c 100644
--- a/cpp/src/hermite/project.cpp
+++ b/cpp/src/hermite/project.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
 #include <iostream>
 #include "hermite/io.hpp"
 #include "hermite/iterators.hpp"
@@ -65,7 +66,7 @@ vec project_vec_nd(const vec & input, u_int dim, const ivec & dirs, std::string
     else if (index_set == "cross_nc") function = project<Cross_iterator_nc>;
     else if (index_set == "cube") function = project<Cube_iterator>;
     else if (index_set == "rectangle") function = project<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(input, dim, dirs);
 }
 
@@ -117,7 +118,7 @@ M project_mat_nd(const M & input, u_int dim, const ivec & dirs, std::string cons
     else if (index_set == "cross_nc") function = project<Cross_iterator_nc,M>;
     else if (index_set == "cube") function = project<Cube_iterator,M>;
     else if (index_set == "rectangle") function = project<Rectangle_iterator,M>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(input, dim, dirs);
 }
 
diff --git a/cpp/src/hermite/tensorize.cpp b/cpp/src/hermite/tensorize.cpp
index 5b65a1a..afe1d7b 100644
--- a/cpp/src/hermite/tensorize.cpp
+++ b/cpp/src/hermite/tensorize.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
 #include <iostream>
 #include <assert.h>
 
@@ -129,7 +130,7 @@ vec tensorize_vecs_dirs(const mat & inputs, const imat & dirs, std::string const
     else if (index_set == "cross_nc") function = tensorize<Cross_iterator_nc>;
     else if (index_set == "cube") function = tensorize<Cube_iterator>;
     else if (index_set == "rectangle") function = tensorize<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(inputs, dirs);
 }
 
@@ -353,7 +354,7 @@ T tensorize_mats_dirs(const vector<S> & inputs, const imat & dirs, std::string c
     else if (index_set == "cross_nc") function = _tensorize_mats_dirs<Cross_iterator_nc,T,S>;
     else if (index_set == "cube") function = _tensorize_mats_dirs<Cube_iterator,T,S>;
     else if (index_set == "rectangle") function = _tensorize_mats_dirs<Rectangle_iterator,T,S>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(inputs, dirs);
 }
 
@@ -366,7 +367,7 @@ T tensorize_mats_axes(const vector<S> & inputs, std::string const & index_set)
     else if (index_set == "cross_nc") function = _tensorize_mats_axes<Cross_iterator_nc,T,S>;
     else if (index_set == "cube") function = _tensorize_mats_axes<Cube_iterator,T,S>;
     else if (index_set == "rectangle") function = _tensorize_mats_axes<Rectangle_iterator,T,S>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(inputs);
 }
 
diff --git a/cpp/src/hermite/transform.cpp b/cpp/src/hermite/transform.cpp
index e258dd2..86fc92d 100644
--- a/cpp/src/hermite/transform.cpp
+++ b/cpp/src/hermite/transform.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
 #include <cmath>
 #include <functional>
 #include <numeric>
@@ -92,8 +93,7 @@ vec _transform(
             {
                 if (degree % 2 == 1)
                 {
-                    std::cout << "Use even degree for Fourier." << std::endl;
-                    exit(1);
+                    throw std::invalid_argument("Use even degree for Fourier.");
                 }
 
                 // Maximal wave number
@@ -164,7 +164,7 @@ vec transform(
     else if (index_set == "cross_nc") function = _transform<Cross_iterator_nc>;
     else if (index_set == "cube") function = _transform<Cube_iterator>;
     else if (index_set == "rectangle") function = _transform<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(degree, input, nodes, weights, do_fourier, forward);
 }
 
diff --git a/cpp/src/hermite/varf.cpp b/cpp/src/hermite/varf.cpp
index b50b821..d28a1c7 100644
--- a/cpp/src/hermite/varf.cpp
+++ b/cpp/src/hermite/varf.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
 #include <cmath>
 
 #include <iostream>
@@ -102,8 +103,7 @@ cube triple_products_fourier(int degree)
 
     if (degree % 2 == 1)
     {
-        std::cout << "Use even degree for Fourier" << std::endl;
-        exit(1);
+        throw std::invalid_argument("Use even degree for Fourier.");
     }
 
     // Maximal wave number
@@ -283,7 +283,7 @@ T varf(
     else if (index_set == "cross_nc") function = varf<Cross_iterator_nc,T>;
     else if (index_set == "cube") function = varf<Cube_iterator,T>;
     else if (index_set == "rectangle") function = varf<Rectangle_iterator,T>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(degree, input, nodes, weights, do_fourier);
 }
 
@@ -328,8 +328,7 @@ T varfd(
     }
     else
     {
-        std::cerr << "Invalid index set!" << std::endl;
-        exit(1);
+        throw std::invalid_argument("Invalid index set!");
     }
 
     u_int i;
@@ -412,8 +411,7 @@ mat varfd(
     }
     else
     {
-        std::cerr << "Invalid index set!" << std::endl;
-        exit(1);
+        throw std::invalid_argument("Invalid index set!");
     }
     m2->reset();
 
-- 
2.43.0


From ae4355d803d7b9a1f3b0ea988bdf1410f9eea16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 04/48] fix: check the sizes of the arguments of the C++
 functions before reading them

---
 cpp/src/hermite/discretize.cpp |  7 +++++
 cpp/src/hermite/inner.cpp      |  4 ++-
 cpp/src/hermite/iterators.cpp  |  3 ++
 cpp/src/hermite/iterators.hpp  |  7 ++++-
 cpp/src/hermite/project.cpp    |  9 ++++++
 cpp/src/hermite/tensorize.cpp  | 57 ++++++++++------------------------
 cpp/src/hermite/transform.cpp  |  7 +++++
 cpp/src/hermite/varf.cpp       |  3 ++
 8 files changed, 54 insertions(+), 43 deletions(-)

diff --git a/cpp/src/hermite/discretize.cpp b/cpp/src/hermite/discretize.cpp
index bcf2fd8..e2c904d 100644
--- a/cpp/src/hermite/discretize.cpp
+++ b/cpp/src/hermite/discretize.cpp
@@ -21,6 +21,7 @@
 #include <cmath>
 #include <dlfcn.h>
 #include <fstream>
+#include <stdexcept>
 
 #include "hermite/types.hpp"
 #include "hermite/iterators.hpp"
@@ -55,6 +56,12 @@ vec discretize(
 {
     u_int dim = nodes.size();
 
+    bool valid = translation.size() == dim && dilation.size() == dim;
+    for (u_int i = 0; valid && i < dim; i++)
+        valid = dilation[i].size() == dim;
+    if (!valid)
+        throw std::invalid_argument("Sizes of the arguments do not match!");
+
     u_int i,j;
     double* node = (double*) malloc(sizeof(double)*dim);
     double* mapped_node = (double*) malloc(sizeof(double)*dim);
diff --git a/cpp/src/hermite/inner.cpp b/cpp/src/hermite/inner.cpp
index 36935c1..a83538e 100644
--- a/cpp/src/hermite/inner.cpp
+++ b/cpp/src/hermite/inner.cpp
@@ -98,7 +98,9 @@ vec inner(const vec & s1,
     #endif
 
     u_int degree = Iterator::s_get_degree(dim1, s1.size());
-    assert( degree == Iterator::s_get_degree(dim2, s2.size()) );
+    if (s1.size() != Iterator::s_size(dim1, degree)
+            || s2.size() != Iterator::s_size(dim2, degree))
+        throw std::invalid_argument("Sizes of the arguments do not match!");
 
     #ifdef DEBUG
     std::cout << "Initializing iterators" <<  std::endl;
diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index e43c586..c1ca749 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -388,6 +388,9 @@ Cross_iterator::Cross_iterator(u_int dim, u_int degree)
               << dim << ", degree = " << degree << std::endl;
     #endif
 
+    if (degree == 0)
+        throw std::invalid_argument("Degree of a cross must be positive!");
+
     ivec m(dim, 0);
     u_int ind = 0;
     do
diff --git a/cpp/src/hermite/iterators.hpp b/cpp/src/hermite/iterators.hpp
index 0d49733..7b82b07 100644
--- a/cpp/src/hermite/iterators.hpp
+++ b/cpp/src/hermite/iterators.hpp
@@ -21,6 +21,7 @@
 #ifndef HERMITE_ITERATORS_H
 #define HERMITE_ITERATORS_H
 
+#include <stdexcept>
 #include <string>
 #include "hermite/io.hpp"
 #include "hermite/lib.hpp"
@@ -95,7 +96,11 @@ class Multi_index_iterator : public Vector_iterator
         u_int index_list;
         imat list;
 
-        Multi_index_iterator(u_int dim): Vector_iterator(dim), index_list(0) {}
+        Multi_index_iterator(u_int dim): Vector_iterator(dim), index_list(0)
+        {
+            if (dim == 0)
+                throw std::invalid_argument("Dimension must be positive!");
+        }
 
     public:
         virtual ~Multi_index_iterator() = default;
diff --git a/cpp/src/hermite/project.cpp b/cpp/src/hermite/project.cpp
index cc7dc1c..778f80e 100644
--- a/cpp/src/hermite/project.cpp
+++ b/cpp/src/hermite/project.cpp
@@ -33,9 +33,17 @@ using namespace std;
 namespace hermite
 {
 
+void check_dirs(u_int dim, const ivec & dirs)
+{
+    for (u_int d : dirs)
+        if (d >= dim)
+            throw std::invalid_argument("Direction does not exist!");
+}
+
 template<typename Iterator>
 vec project(const vec & input, u_int dim, const ivec & dirs)
 {
+    check_dirs(dim, dirs);
     u_int n_polys = input.size();
     u_int dim_sub = dirs.size();
     u_int degree = Iterator::s_get_degree(dim, n_polys);
@@ -79,6 +87,7 @@ vec project_vec_1d(const vec & input, u_int dim, u_int dir, std::string const &
 template<typename Iterator, typename M>
 M project(const M & input, u_int dim, const ivec & dirs)
 {
+    check_dirs(dim, dirs);
     u_int n_polys = matrix::size1(input);
     u_int dim_sub = dirs.size();
     u_int degree = Iterator::s_get_degree(dim, n_polys);
diff --git a/cpp/src/hermite/tensorize.cpp b/cpp/src/hermite/tensorize.cpp
index afe1d7b..02f7e72 100644
--- a/cpp/src/hermite/tensorize.cpp
+++ b/cpp/src/hermite/tensorize.cpp
@@ -46,39 +46,19 @@ void check_dims(const imat & dirs, u_int dim)
         for (u_int j = 0; j < dirs[i].size(); j++)
         {
             u_int dir = dirs[i][j];
+            if (dir >= dim)
+                throw std::invalid_argument("Missing direction!");
             if (dirs_present[dir])
-            {
-                cout << "The same direction appears twice, exiting ..." << endl;
-                exit(1);
-            }
-            else
-            {
-                dirs_present[dir] = true;
-            }
-        }
-    }
-
-    for (u_int i = 0; i < dirs_present.size(); i++)
-    {
-        if (!dirs_present[i])
-        {
-            cout << "Missing direction, exiting ..." << endl;
-            exit(1);
+                throw std::invalid_argument("The same direction appears twice!");
+            dirs_present[dir] = true;
         }
     }
 }
 
-template<typename Iterator>
-void check_degree(u_int size, u_int dim, u_int degree)
+void check_size(u_int size, u_int n_polys)
 {
-    u_int n_polys = Iterator::s_size(dim, degree);
     if (n_polys != size)
-    {
-        cout << "Size of input does not match dimension!" << endl;
-        cout << "Expected dimension: " << n_polys << endl;
-        cout << "Actual dimension: " << size << endl;
-        exit(1);
-    }
+        throw std::invalid_argument("Size of input does not match dimension!");
 }
 
 // }}}
@@ -100,11 +80,9 @@ vec tensorize(const mat & inputs, const imat & dirs)
     for (u_int i = 0; i < dirs.size(); i++)
         it_mul.push_back(Iterator(dims[i], degree));
 
-    #ifdef DEBUG
     check_dims(dirs, dim);
     for (u_int i = 0; i < dirs.size(); i++)
-        check_degree<Iterator>(inputs[i].size(), dims[i], degree);
-    #endif
+        check_size(inputs[i].size(), it_mul[i].size());
 
     u_int n_polys = Iterator::s_size(dim, degree);
     vec results(n_polys, 0.);
@@ -186,6 +164,10 @@ void tensorize_dirs(const ivec & dA, const ivec & dB,
             dA_to_ind[iA++] = i;
             continue;
         }
+        else if (iA < sA && dA[iA] == dB[iB])
+        {
+            throw std::invalid_argument("The same direction appears twice!");
+        }
         else
         {
             result[i] = dB[iB];
@@ -213,10 +195,6 @@ spmat tensorize(const spmat & A, const spmat & B,
 
     u_int degree = Iterator::s_get_degree(sA, A.size1());
 
-    #ifdef DEBUG
-    assert(Iterator::s_get_degree(sB, B.size1()) == degree);
-    #endif
-
     u_int n_polys = Iterator::s_size(dim, degree);
     spmat product = matrix::construct<spmat>(n_polys, n_polys);
 
@@ -224,6 +202,11 @@ spmat tensorize(const spmat & A, const spmat & B,
     imat multi_indices_A = Iterator::s_list(sA, degree),
          multi_indices_B = Iterator::s_list(sB, degree);
 
+    check_size(A.size1(), multi_indices_A.size());
+    check_size(A.size2(), multi_indices_A.size());
+    check_size(B.size1(), multi_indices_B.size());
+    check_size(B.size2(), multi_indices_B.size());
+
     #ifdef DEBUG
     cout << "--> With the following multi-index sets:" << endl;
     cout << multi_indices_A << endl << multi_indices_B << endl;;
@@ -307,14 +290,6 @@ T _tensorize_mats_dirs(const vector<S> & inputs, const imat & dirs)
     for (u_int i = 0; i < inputs.size(); i++)
         sp_inputs[i] = matrix::convert<spmat>(inputs[i]);
 
-    #ifdef DEBUG
-    check_dims(dirs, dim);
-
-    u_int degree = Iterator::s_get_degree(dims[0], matrix::size1(inputs[0]));
-    for (u_int i = 1; i < inputs.size(); i++)
-        check_degree<Iterator>(matrix::size1(inputs[i]), dims[i], degree);
-    #endif
-
     spmat result = sp_inputs[0];
     ivec d = dirs[0], d_old, _a1, _a2;
     for (u_int i = 0; i < inputs.size() - 1; i++)
diff --git a/cpp/src/hermite/transform.cpp b/cpp/src/hermite/transform.cpp
index 86fc92d..a146ed2 100644
--- a/cpp/src/hermite/transform.cpp
+++ b/cpp/src/hermite/transform.cpp
@@ -64,6 +64,13 @@ vec _transform(
         n_points_tot *= n_points[i];
     }
 
+    bool valid = weights.size() == dim && do_fourier.size() == dim
+        && input.size() == (forward ? n_points_tot : n_polys);
+    for (i = 0; valid && i < dim; i++)
+        valid = weights[i].size() == n_points[i];
+    if (!valid)
+        throw std::invalid_argument("Sizes of the arguments do not match!");
+
     vec output;
     if (forward)
     {
diff --git a/cpp/src/hermite/varf.cpp b/cpp/src/hermite/varf.cpp
index d28a1c7..36eabc9 100644
--- a/cpp/src/hermite/varf.cpp
+++ b/cpp/src/hermite/varf.cpp
@@ -331,6 +331,9 @@ T varfd(
         throw std::invalid_argument("Invalid index set!");
     }
 
+    if (var.size1() != m->size() || var.size2() != m->size() || direction >= dim)
+        throw std::invalid_argument("Invalid matrix or direction!");
+
     u_int i;
     imat multi_indices;
     for (i = 0, m->reset(); i < var.size1(); i++, m->increment())
-- 
2.43.0


From ad79cd55ef58e419d53b2f5c7658d77c2355230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:21 +0000
Subject: [PATCH 05/48] fix: discretize: compile atomically and raise when the
 function can't be compiled or loaded

---
 cpp/src/hermite/discretize.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/cpp/src/hermite/discretize.cpp b/cpp/src/hermite/discretize.cpp
index e2c904d..99c51c7 100644
--- a/cpp/src/hermite/discretize.cpp
+++ b/cpp/src/hermite/discretize.cpp
@@ -19,9 +19,12 @@
  */
 
 #include <cmath>
+#include <cstdio>
+#include <cstdlib>
 #include <dlfcn.h>
 #include <fstream>
 #include <stdexcept>
+#include <unistd.h>
 
 #include "hermite/types.hpp"
 #include "hermite/iterators.hpp"
@@ -95,11 +98,20 @@ vec discretize(
 void intern_function(string const & function_body)
 {
     string name = to_string(hash<string>()(function_body));
-    string cpp_file = "/tmp/" + name + ".cpp";
     string so_file = "/tmp/" + name + ".so";
     ifstream test_exists(so_file.c_str());
 
     if(! test_exists.good()) {
+         // Other processes may be compiling the same function, so that the
+         // result is put in place only when it is complete.
+         string unique = "/tmp/" + name + "-XXXXXX";
+         int fd = mkstemp(&unique[0]);
+         if (fd == -1)
+             throw std::runtime_error("Could not create a file in /tmp");
+         close(fd);
+
+         string cpp_file = unique + ".cpp";
+         string tmp_file = unique + ".so";
          ofstream write_function;
          write_function.open(cpp_file);
          write_function << "#define M_PI 3.14159265358979323846\n";
@@ -109,10 +121,17 @@ void intern_function(string const & function_body)
          write_function.close();
 
         // Compile file
-        string command = "c++ " + cpp_file + " -o " + so_file + " -O3 -Ofast -shared -fPIC";
+        string command = "c++ " + cpp_file + " -o " + tmp_file + " -O3 -Ofast -shared -fPIC";
         int return_value = system(command.c_str());
-        if (return_value != 0) 
-            std::cout << "Error compiling file in /tmp" << std::endl;
+        if (return_value == 0)
+            return_value = rename(tmp_file.c_str(), so_file.c_str());
+        remove(unique.c_str());
+        remove(cpp_file.c_str());
+        if (return_value != 0)
+        {
+            remove(tmp_file.c_str());
+            throw std::runtime_error("Error compiling file in /tmp");
+        }
     }
 }
 
@@ -126,7 +145,14 @@ vec discretize_from_string(
     string name = to_string(hash<string>()(function_body));
     string so_file = "/tmp/" + name + ".so";
     void *function_so = dlopen(so_file.c_str(), RTLD_NOW);
+    if (function_so == NULL)
+        throw std::runtime_error("Error loading " + so_file);
     s_func func = (s_func) dlsym(function_so, "toIntegrate");
+    if (func == NULL)
+    {
+        dlclose(function_so);
+        throw std::runtime_error("Error loading " + so_file);
+    }
     vec result = discretize(func, nodes, translation, dilation);
     dlclose(function_so);
     return result;
-- 
2.43.0


From a9aa7171d2466ca0827c3d8e037457dff76c57ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 06/48] fix: converters: read numpy matrices with their own
 shape, strides and type

---
 cpp/src/hermite/python/converters.cpp | 38 +++++++++++++++++++--------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/cpp/src/hermite/python/converters.cpp b/cpp/src/hermite/python/converters.cpp
index 5d7b03b..4591b1f 100644
--- a/cpp/src/hermite/python/converters.cpp
+++ b/cpp/src/hermite/python/converters.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <iostream>
+#include <stdexcept>
 
 #include <boost/python.hpp>
 #include <boost/python/numpy.hpp>
@@ -78,8 +79,15 @@ np::ndarray to_numpy(const boost_mat & input)
     return converted.copy();
 }
 
+void check_double(const np::ndarray & input)
+{
+    if (input.get_dtype() != np::dtype::get_builtin<double>())
+        throw std::invalid_argument("Entries of the matrix must be doubles");
+}
+
 cmat to_bmat(const np::ndarray & input)
 {
+    check_double(input);
     if (input.get_nd() != 2)
     {
         cout << "Dimension must be 2" << endl;
@@ -93,21 +101,26 @@ cmat to_bmat(const np::ndarray & input)
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
-    u_int stride_cols = (u_int) strides[1] / sizeof(double);
+    Py_intptr_t size = sizeof(double);
+    Py_intptr_t stride_rows = strides[0] / size;
 
-    if (stride_cols != 1)
+    if ((strides[1] != size && n_cols > 1) || strides[0] % size != 0)
     {
         cout << "Rows of the matrix must be stored contiguously" << endl;
         throw ROWS_NOT_CONTIGUOUS;
     }
 
-    auto sizes = boost::extents[n_rows][n_cols];
-    cmat result = cmat(boost::multi_array_ref<double, 2>(data, sizes)); // copy
+    cmat result(boost::extents[n_rows][n_cols]);
+    for (u_int i = 0; i < n_rows; ++i)
+        for (u_int j = 0; j < n_cols; j++)
+            result[i][j] = data[i*stride_rows + j];
+
     return result;
 }
 
 boost_mat to_boost_mat(const np::ndarray & input)
 {
+    check_double(input);
     if (input.get_nd() != 2)
     {
         cout << "Dimension must be 2" << endl;
@@ -121,9 +134,10 @@ boost_mat to_boost_mat(const np::ndarray & input)
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
-    u_int stride_cols = (u_int) strides[1] / sizeof(double);
+    Py_intptr_t size = sizeof(double);
+    Py_intptr_t stride_rows = strides[0] / size;
 
-    if (stride_cols != 1)
+    if ((strides[1] != size && n_cols > 1) || strides[0] % size != 0)
     {
         cout << "Rows of the matrix must be stored contiguously" << endl;
         throw ROWS_NOT_CONTIGUOUS;
@@ -132,13 +146,14 @@ boost_mat to_boost_mat(const np::ndarray & input)
     boost_mat result (n_rows, n_cols);
     for (u_int i = 0; i < n_rows; ++i)
         for (u_int j = 0; j < n_cols; j++)
-            result(i, j) = data[i*n_rows + j];
+            result(i, j) = data[i*stride_rows + j];
 
     return result;
 }
 
 mat to_mat(const np::ndarray & input)
 {
+    check_double(input);
     if (input.get_nd() != 2)
     {
         cout << "Dimension must be 2" << endl;
@@ -150,11 +165,12 @@ mat to_mat(const np::ndarray & input)
     double * data = reinterpret_cast<double*>(input.get_data());
 
     u_int n_rows = (u_int) shape[0];
+    u_int n_cols = (u_int) shape[1];
 
-    u_int stride_rows = (u_int) strides[0] / sizeof(double);
-    u_int stride_cols = (u_int) strides[1] / sizeof(double);
+    Py_intptr_t size = sizeof(double);
+    Py_intptr_t stride_rows = strides[0] / size;
 
-    if (stride_cols != 1)
+    if ((strides[1] != size && n_cols > 1) || strides[0] % size != 0)
     {
         cout << "Rows of the matrix must be stored contiguously" << endl;
         throw ROWS_NOT_CONTIGUOUS;
@@ -163,7 +179,7 @@ mat to_mat(const np::ndarray & input)
     mat result(n_rows);
     for (u_int i = 0; i < n_rows; i++)
     {
-        result[i] = vec(data + i*stride_rows, data + (i+1)*stride_rows);
+        result[i] = vec(data + i*stride_rows, data + i*stride_rows + n_cols);
     }
 
     return result;
-- 
2.43.0


From a741dab3f43450759992ab4d5efb49987b28e007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 07/48] fix: Series.to_function: rescale the variable by the
 inverse of the standard deviation

---
 hermipy/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/series.py b/hermipy/series.py
index 60f270d..846ebc3 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -274,7 +274,7 @@ does not match number of multi-indices!")
             var = func.Function.xyz[d]
             h0 = func.Function('1', dirs=dirs)
             μ, σ = self.position.mean[i], self.position.cov[i][i]
-            f1 = np.sqrt(σ) * (var - μ)
+            f1 = (var - μ) / np.sqrt(σ)
             h1 = func.Function(f1, dirs=dirs)
             hermite_dirs.append([h0, h1])
             for j in range(1, self.degree):
-- 
2.43.0


From 6f9ce84c5e9742445c9adf6d965e20e1558e3cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 08/48] fix: Varf.project: use the directions of the position

---
 hermipy/varf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 93fdb4f..97182ef 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -136,7 +136,7 @@ class Varf:
     def project(self, directions):
         if isinstance(directions, int):
             directions = [directions]
-        rel_dirs = [self.dirs.index(d) for d in directions]
+        rel_dirs = [self.position.dirs.index(d) for d in directions]
         p_matrix = core.project(self.matrix, self.position.dim, rel_dirs,
                                 index_set=self.index_set)
         p_pos = self.position.project(directions)
-- 
2.43.0


From d4214425296cce4ab65e20050fe70a50efeca9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 09/48] fix: Quad.eval: multiply the factors as matrices, for
 non-diagonal covariance

---
 hermipy/quad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 923ae72..47c503b 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -314,7 +314,7 @@ class Quad:
 
         inv = la.inv(series.position.factor)
         translation = inv.dot(self.position.mean - series.position.mean)
-        factor = inv * self.position.factor
+        factor = inv.dot(self.position.factor)
         if la.norm(factor - np.diag(np.diag(factor)), 2) > 1e-8:
             raise ValueError("Incompatible covariance matrices")
         mapped_nodes = self.nodes.copy()
-- 
2.43.0


From 38d966ac0f54420a1e6eea7b0f2007cb49565eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 10/48] fix: Position: dimension may be given by the mean or
 covariance alone

---
 hermipy/position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 2684cc3..0b279b7 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -90,7 +90,7 @@ class Position:
             raise ValueError("Invalid arguments dim/dirs")
 
         # Defaults to first directions
-        self.dirs = list(range(dim)) if dirs is None else dirs
+        self.dirs = list(range(self.dim)) if dirs is None else dirs
 
         self.mean = np.zeros(self.dim) if mean is None \
             else np.asarray(mean, float)
-- 
2.43.0


From e2dcce16b408b2e5f3a9348a5c1fdc8430b6b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 11/48] fix: Quad.fourier: keep the dimension of the position
 given

---
 hermipy/quad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 47c503b..aa95807 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -101,7 +101,7 @@ class Quad:
         # Determine dimension
         if position is not None:
             dim = position.dim
-        if dirs is not None:
+        elif dirs is not None:
             dim = len(dirs)
         elif bounds is not None:
             dim = len(bounds)
-- 
2.43.0


From 9cff2048cbaf8b44c92b0f8889cfe1ae2efafb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 12/48] fix: Quad.mapped_nodes: use the names of the variables

---
 hermipy/quad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index aa95807..83a27c4 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -242,7 +242,7 @@ class Quad:
     def mapped_nodes(self):
         coords_nodes = []
         for i in range(self.position.dim):
-            coord = 'x_{}'.format(i)
+            coord = 'x{}'.format(self.position.dirs[i])
             coords_nodes.append(self.discretize(coord))
         return np.asarray(np.vstack(coords_nodes)).T
 
-- 
2.43.0


From e977841018ae6b5c00549056fb19d6f710e152bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 13/48] fix: Series.to_cross: keep the factor

---
 hermipy/series.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermipy/series.py b/hermipy/series.py
index 846ebc3..7b31aae 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -295,4 +295,5 @@ does not match number of multi-indices!")
            not degree + self.position.dim - 1 <= self.degree:
             raise ValueError("Invalid argument!")
         coeffs = self.coeffs[lib.cross_in_triangle(self.position.dim, degree)]
-        return Series(coeffs, self.position, index_set="cross")
+        return Series(coeffs, self.position,
+                      factor=self.factor, index_set="cross")
-- 
2.43.0


From b9e7af9235e9de6fcd4f013ff6ffbc98765bae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 14/48] fix: Varf.solve: allow gmres without preconditioner

---
 hermipy/varf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 97182ef..f5f0ee5 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -209,6 +209,7 @@ class Varf:
             # Extend hash function to ignore callback
             from scipy.sparse.linalg import gmres
             cachefun = cache.cache(quiet=True, hash_extend=lambda arg: '0')
+            M = None
             if preconditioner == 'ilu':
                 ilu, n = spla.spilu(matrix), matrix.shape[0]
                 M = spla.LinearOperator((n, n), ilu.solve)
-- 
2.43.0


From b6156b33782e100ba8f90df00e22dd3fe1de44d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:09 +0000
Subject: [PATCH 15/48] fix: Position: use orthogonal eigenvectors, so that the
 factor is one of the covariance

---
 hermipy/position.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 0b279b7..0f4f95d 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -100,15 +100,19 @@ class Position:
 
         self.types = ["hermite"]*self.dim if types is None else types
 
-        eigval, eigvec = la.eig(self.cov)
-        self.factor = np.matmul(eigvec, np.sqrt(np.diag(eigval)))
-
         diag_cov = np.diag(np.diag(self.cov))
 
         self.is_diag = True
         if len(self.dirs) > 0 and la.norm(self.cov - diag_cov, 2) > 1e-10:
             self.is_diag = False
 
+        # The eigenvectors of eig() are not orthogonal in general
+        if self.is_diag:
+            self.factor = np.sqrt(diag_cov)
+        else:
+            eigval, eigvec = la.eigh(self.cov)
+            self.factor = np.matmul(eigvec, np.sqrt(np.diag(eigval)))
+
     def __eq__(self, other):
         return self.dirs == other.dirs \
             and la.norm(self.mean - other.mean, 2) < self.very_small \
-- 
2.43.0


From cef7727437f7ff11a56d8beb2a7f24635f894be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:09 +0000
Subject: [PATCH 16/48] fix: Position.weight: count only the Hermite directions
 in the normalization

---
 hermipy/position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 0f4f95d..7f40f58 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -140,7 +140,7 @@ class Position:
         var = [func.Function.xyz[self.dirs[i]] for i in ind]
         inv_cov = la.inv(sub_cov)
         potential = 0.5 * inv_cov.dot(var - sub_mean).dot(var - sub_mean)
-        normalization = 1/(sym.sqrt((2*sym.pi)**self.dim * la.det(sub_cov)))
+        normalization = 1/(sym.sqrt((2*sym.pi)**len(ind) * la.det(sub_cov)))
         return normalization * sym.exp(-potential)
 
     def weights(self):
-- 
2.43.0


From 54e3de13bae68e18d2a03b9762bdbda103c09b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:36 +0000
Subject: [PATCH 17/48] fix: Quad.varfd: apply the chain rule when the
 covariance is not diagonal

---
 hermipy/quad.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 83a27c4..e77df74 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -351,13 +351,15 @@ class Quad:
         var = self.varf(function, degree, sparse=sparse,
                         index_set=index_set, tensorize=False)
         mat = var.matrix
-        eigval, _ = la.eig(self.position.cov)
+        inv = la.inv(self.position.factor)
         for d in directions:
             rel_dir = self.position.dirs.index(d)
-            mat = core.varfd(self.position.dim, degree, rel_dir,
-                             mat, do_fourier=self.do_fourier[rel_dir],
-                             index_set=index_set)
-            mat = mat/np.sqrt(eigval[rel_dir])
+            # Chain rule: the bases are functions of inv * (x - mean)
+            mat = sum(core.varfd(self.position.dim, degree, i, mat,
+                                 do_fourier=self.do_fourier[i],
+                                 index_set=index_set) * inv[i][rel_dir]
+                      for i in range(self.position.dim)
+                      if inv[i][rel_dir] != 0)
         return hm.Varf(mat, self.position,
                        factor=self.factor, index_set=index_set)
 
-- 
2.43.0


From cd4bf55f7f80fba1bc558201c24acacb92f295c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:36 +0000
Subject: [PATCH 18/48] fix: Function.project: refuse to drop a factor that
 couples directions

---
 hermipy/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/function.py b/hermipy/function.py
index 6d055ca..6f0dcc7 100644
--- a/hermipy/function.py
+++ b/hermipy/function.py
@@ -139,7 +139,7 @@ function can't be split")
         for v, term in split_fun[0].items():
             if v.issubset(dirs) and v != frozenset():
                 result *= term.sym
-            elif set(dirs) != set() and set(dirs).issubset(v):
+            elif v.intersection(dirs) != frozenset():
                 raise ValueError("Can't project factor!")
         return Function(result, dirs=dirs)
 
-- 
2.43.0


From df2c27311ec7b7aa52ceae58bdaeeca382f17c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:36 +0000
Subject: [PATCH 19/48] fix: Series: support sum() and addition on the right,
 like Varf

---
 hermipy/series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermipy/series.py b/hermipy/series.py
index 7b31aae..823f526 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -148,6 +148,7 @@ does not match number of multi-indices!")
             raise TypeError("Invalid type: " + str(type(other)))
 
     __rmul__ = __mul__
+    __radd__ = __add__
 
     def __sub__(self, other):
         return self + other * (-1)
-- 
2.43.0


From 1b433cdc94812e90e11ece227ffab4ed2c8320ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:36 +0000
Subject: [PATCH 20/48] fix: CompQuad: weighted sums for varfd and
 discretize_op, argument of project

---
 hermipy/compquad.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/hermipy/compquad.py b/hermipy/compquad.py
index c1624d4..d852228 100644
--- a/hermipy/compquad.py
+++ b/hermipy/compquad.py
@@ -75,15 +75,22 @@ class CompQuad():
 
     def varfd(self, function, degree, directions, sparse=None,
               index_set="triangle"):
-        return quad.Quad.varfd(self, function, degree, directions,
-                               sparse=sparse, index_set=index_set)
+        result = 0
+        for i, q in enumerate(self.quads):
+            varfd = q.varfd(function, degree, directions,
+                            sparse=sparse, index_set=index_set)
+            result += varfd * self.qweights[i]
+        return result
 
-    def discretize_op(self, op, func, degree, order,
-                      sparse=None, index_set="triangle"):
-        return quad.Quad.discretize_op(self, op, func, degree, order,
-                                       sparse=sparse, index_set = index_set)
+    def discretize_op(self, op, degree, sparse=None, index_set="triangle"):
+        result = 0
+        for i, q in enumerate(self.quads):
+            varf = q.discretize_op(op, degree,
+                                   sparse=sparse, index_set=index_set)
+            result += varf * self.qweights[i]
+        return result
 
-    def project(self, projection):
+    def project(self, directions):
         new_quads = [q.project(directions) for q in self.quads]
         return CompQuad(new_quads, self.qweights)
 
-- 
2.43.0


From a345263e2c0f2119ddb7b77e5382ff5b4f8b988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:55 +0000
Subject: [PATCH 21/48] fix: CompQuad: compare the weights of the quadratures

---
 hermipy/compquad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermipy/compquad.py b/hermipy/compquad.py
index d852228..0249d10 100644
--- a/hermipy/compquad.py
+++ b/hermipy/compquad.py
@@ -51,7 +51,8 @@ class CompQuad():
         if len(self.quads) != len(other.quads):
             return False
 
-        return all(q1 == q2 for q1, q2 in zip(self.quads, other.quads))
+        return list(self.qweights) == list(other.qweights) and \
+            all(q1 == q2 for q1, q2 in zip(self.quads, other.quads))
 
     def integrate(self, f):
         result = 0
-- 
2.43.0


From 831ff9ea158d08858b9e9a6acec6d41b9d60f80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:55 +0000
Subject: [PATCH 22/48] fix: cache: tell arguments of different shape, type or
 value apart

---
 hermipy/cache.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 824bce6..d19c9c4 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -37,28 +37,31 @@ def gen_hash(extend=None):
         extend = default_extend
 
     def the_hash(argument):
+        # The type is part of the key, for '1', 1 and 1. are not the same
         if isinstance(argument, str):
-            encoded_str = argument.encode('utf-8')
+            encoded_str = ('str-' + argument).encode('utf-8')
             return hashlib.md5(encoded_str).hexdigest()
         if isinstance(argument, sparse.csr_matrix):
             a = argument
             new_args = [a.data, a.indices, a.indptr, a.shape]
             return the_hash(new_args)
         if isinstance(argument, np.ndarray):
-            return hashlib.md5(argument).hexdigest()
+            data = hashlib.md5(np.ascontiguousarray(argument)).hexdigest()
+            return the_hash('ndarray-' + argument.dtype.str + '-' +
+                            str(argument.shape) + '-' + data)
         if isinstance(argument, sym.Basic):
-            return the_hash(str(argument))
+            return the_hash('sympy-' + sym.srepr(argument))
         if isinstance(argument, (list, tuple, frozenset)):
             hashes = [the_hash(e) for e in argument]
-            return the_hash('list' + '-'.join(hashes))
+            return the_hash(type(argument).__name__ + '-' + '-'.join(hashes))
         if isinstance(argument, dict):
             hashes_k = ['k'] + [the_hash(kw) for kw in argument]
             hashes_v = ['v'] + [the_hash(argument[kw]) for kw in argument]
-            return the_hash(hashes_k + hashes_v)
+            return the_hash('dict-' + '-'.join(hashes_k + hashes_v))
         if isinstance(argument, (int, float)):
-            return the_hash(str(hash(argument)))
+            return the_hash(type(argument).__name__ + '-' + repr(argument))
         if argument is None:
-            return the_hash("")
+            return the_hash('None-')
         return the_hash(extend(argument))
 
     return the_hash
@@ -111,10 +114,11 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                 use_cache = kwargs['cache']
                 del kwargs['cache']
             hashes, prefix = [], function.__name__
+            hashes.append(hash_fun(str(function.__module__)))
             for arg in args:
                 hashes.append(hash_fun(arg))
             for kw in kwargs:
-                hashes.append(hash_fun(kw))
+                hashes.append(hash_fun('kw-' + kw))
                 hashes.append(hash_fun(kwargs[kw]))
             hash_args = hash_fun(('-'.join(hashes)))
             if settings['debug']:
-- 
2.43.0


From c161d0a4dcfd1fec5837fa7de073a9747bb81122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:55 +0000
Subject: [PATCH 23/48] fix: cache: store only what can be loaded back, and
 with its type

---
 hermipy/cache.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index d19c9c4..47087f8 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -102,7 +102,7 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
     def extended_load(filename):
         result = np.load(filename)
         if result.shape == ():
-            result = float(result)
+            result = result.item()
         return result
 
     def cache_aux(function):
@@ -143,9 +143,6 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                 try:
                     result_cache = load(savefile)
                     if use_cache:
-                        if isinstance(result_cache, float) and \
-                                result_cache.is_integer():
-                            result_cache = int(result_cache)
                         return result_cache
                 except ValueError:
                     cached_exists = False
@@ -162,8 +159,11 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                     raise ValueError("Result does not correspond to cache")
                 return result
 
+            # Other results, such as tuples, can't be loaded back
+            can_save = is_sparse_result or \
+                isinstance(result, (np.ndarray, np.number, int, float))
             save = sparse.save_npz if is_sparse_result else np.save
-            if settings['cache']:
+            if settings['cache'] and can_save:
                 save(savefile, result)
             return result
 
-- 
2.43.0


From 8107ecfbadad6188d68896170ad1e24ecbea5d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:55 +0000
Subject: [PATCH 24/48] fix: cache: write entries atomically and treat
 unreadable ones as missing

---
 hermipy/cache.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 47087f8..74e6a79 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -22,6 +22,9 @@ import sympy as sym
 import numpy as np
 import scipy.sparse as sparse
 import os
+import tempfile
+import zipfile
+import zlib
 
 from functools import wraps
 from hermipy.settings import settings
@@ -125,18 +128,17 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                 print("Hash of arguments: " + prefix + '-' + '-'.join(hashes))
 
             cachedir = settings['cachedir']
-            if not os.path.exists(cachedir):
-                os.makedirs(cachedir)
+            os.makedirs(cachedir, exist_ok=True)
 
-            savefile = cachedir + '/' + prefix + '-' + str(hash_args)
+            basename = cachedir + '/' + prefix + '-' + str(hash_args)
 
             cached_exists = False
-            if os.path.isfile(savefile + '.npy'):
+            if os.path.isfile(basename + '.npy'):
                 cached_exists, is_sparse_cache = True, False
-                savefile += '.npy'
-            elif os.path.isfile(savefile + '.npz'):
+                savefile = basename + '.npy'
+            elif os.path.isfile(basename + '.npz'):
                 cached_exists, is_sparse_cache = True, True
-                savefile += '.npz'
+                savefile = basename + '.npz'
 
             if cached_exists:
                 load = sparse.load_npz if is_sparse_cache else extended_load
@@ -144,7 +146,9 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                     result_cache = load(savefile)
                     if use_cache:
                         return result_cache
-                except ValueError:
+                except (ValueError, EOFError, OSError, KeyError,
+                        zipfile.BadZipFile, zlib.error):
+                    # Unreadable entry, for example an incomplete one
                     cached_exists = False
 
             result = function(*args, **kwargs)
@@ -164,7 +168,16 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                 isinstance(result, (np.ndarray, np.number, int, float))
             save = sparse.save_npz if is_sparse_result else np.save
             if settings['cache'] and can_save:
-                save(savefile, result)
+                # Readers must never see an incomplete entry
+                savefile = basename + ('.npz' if is_sparse_result else '.npy')
+                fd, tmpfile = tempfile.mkstemp(dir=cachedir)
+                try:
+                    with os.fdopen(fd, 'wb') as tmp:
+                        save(tmp, result)
+                    os.replace(tmpfile, savefile)
+                except BaseException:
+                    os.unlink(tmpfile)
+                    raise
             return result
 
         return wrapper
-- 
2.43.0


From 152fc16288632538cb8df3add60074084e275b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:23 +0000
Subject: [PATCH 25/48] fix: cache: equal infinities and nans are no mismatch

---
 hermipy/cache.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 74e6a79..2eb21da 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -83,9 +83,10 @@ def gen_error(extend=None):
 
     def the_error(u, v):
         if isinstance(u, (float, int)):
-            return abs(u - v)
+            return 0 if u == v or u != u and v != v else abs(u - v)
         elif isinstance(u, np.ndarray):
-            return la.norm(u - v, 2)
+            return 0 if np.array_equal(u, v, equal_nan=True) \
+                else la.norm(u - v, 2)
         elif isinstance(u, sparse.csr_matrix):
             if not isinstance(v, sparse.csr_matrix):
                 raise ValueError("Type mismatch")
-- 
2.43.0


From bd541966d1f0ebf659cb4b6cdcc278addb681159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:40 +0000
Subject: [PATCH 26/48] fix: Varf.subdegree: refuse cross_nc, whose lists are
 not nested, like Series

---
 hermipy/varf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index f5f0ee5..1ab0054 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -147,6 +147,8 @@ class Varf:
     def subdegree(self, degree):
         if not degree <= self.degree:
             raise ValueError("Invalid argument: degree too high!")
+        if self.index_set == "cross_nc":
+            raise ValueError("cross_nc not supported!")
         n_polys = core.iterator_size(self.position.dim, degree,
                                      index_set=self.index_set)
         kwargs = {'order': 'C'} if not self.is_sparse else {}
-- 
2.43.0


From 197121631a2e4704348a9dc4aa81f40d1d0f1f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:45 +0000
Subject: [PATCH 27/48] fix: cross get_degree: refuse numbers of polynomials
 that are not the size of a set

It used the first entry of a multi-index of a list of degree 250, which is
wrong for other numbers and too long to list in high dimension.
---
 cpp/src/hermite/iterators.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index c1ca749..4860357 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -414,10 +414,11 @@ imat Cross_iterator::s_list(u_int dim, u_int degree)
 
 u_int Cross_iterator::s_get_degree(u_int dim, u_int n_polys)
 {
-    Cross_iterator m(dim, DEGREE_BISSECT_MAX);
-    if (n_polys == 0 || n_polys > m.list.size())
+    // There is no set of degree 0
+    if (n_polys == 0)
         throw std::invalid_argument("No degree for this number of polynomials!");
-    return m.list[n_polys - 1][0];
+    auto function = [dim] (u_int degree) {return degree == 0 ? 0 : s_size(dim, degree);};
+    return pos_bissect (n_polys, function, DEGREE_BISSECT_MAX);
 }
 
 u_int Cross_iterator::s_size(u_int dim, u_int degree)
-- 
2.43.0


From e8f44ce8ac9eae12ededfe8890dc7a5023880b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:19 +0000
Subject: [PATCH 28/48] fix: cache: no string has the key of an argument of
 another type

---
 hermipy/cache.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 2eb21da..bc3a976 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -39,33 +39,36 @@ def gen_hash(extend=None):
     if extend is None:
         extend = default_extend
 
-    def the_hash(argument):
+    def digest(kind, text):
         # The type is part of the key, for '1', 1 and 1. are not the same
+        return hashlib.md5((kind + '-' + text).encode('utf-8')).hexdigest()
+
+    def the_hash(argument):
+        name = type(argument).__name__
         if isinstance(argument, str):
-            encoded_str = ('str-' + argument).encode('utf-8')
-            return hashlib.md5(encoded_str).hexdigest()
+            return digest('str', argument)
         if isinstance(argument, sparse.csr_matrix):
             a = argument
             new_args = [a.data, a.indices, a.indptr, a.shape]
-            return the_hash(new_args)
+            return digest('csr', the_hash(new_args))
         if isinstance(argument, np.ndarray):
             data = hashlib.md5(np.ascontiguousarray(argument)).hexdigest()
-            return the_hash('ndarray-' + argument.dtype.str + '-' +
-                            str(argument.shape) + '-' + data)
+            return digest('ndarray', argument.dtype.str + '-' +
+                          str(argument.shape) + '-' + data)
         if isinstance(argument, sym.Basic):
-            return the_hash('sympy-' + sym.srepr(argument))
+            return digest('sympy', sym.srepr(argument))
         if isinstance(argument, (list, tuple, frozenset)):
             hashes = [the_hash(e) for e in argument]
-            return the_hash(type(argument).__name__ + '-' + '-'.join(hashes))
+            return digest(name, '-'.join(hashes))
         if isinstance(argument, dict):
             hashes_k = ['k'] + [the_hash(kw) for kw in argument]
             hashes_v = ['v'] + [the_hash(argument[kw]) for kw in argument]
-            return the_hash('dict-' + '-'.join(hashes_k + hashes_v))
+            return digest('dict', '-'.join(hashes_k + hashes_v))
         if isinstance(argument, (int, float)):
-            return the_hash(type(argument).__name__ + '-' + repr(argument))
+            return digest(name, repr(argument))
         if argument is None:
-            return the_hash('None-')
-        return the_hash(extend(argument))
+            return digest('None', '')
+        return digest('extend', the_hash(extend(argument)))
 
     return the_hash
 
@@ -122,7 +125,7 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
             for arg in args:
                 hashes.append(hash_fun(arg))
             for kw in kwargs:
-                hashes.append(hash_fun('kw-' + kw))
+                hashes.append('kw-' + hash_fun(kw))
                 hashes.append(hash_fun(kwargs[kw]))
             hash_args = hash_fun(('-'.join(hashes)))
             if settings['debug']:
-- 
2.43.0


From 17ea7ac517a9d7708a89c46799520840cb554568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:48 +0000
Subject: [PATCH 29/48] fix: cache: treat every unreadable entry as missing

---
 hermipy/cache.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index bc3a976..fe74297 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -23,8 +23,6 @@ import numpy as np
 import scipy.sparse as sparse
 import os
 import tempfile
-import zipfile
-import zlib
 
 from functools import wraps
 from hermipy.settings import settings
@@ -150,9 +148,9 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                     result_cache = load(savefile)
                     if use_cache:
                         return result_cache
-                except (ValueError, EOFError, OSError, KeyError,
-                        zipfile.BadZipFile, zlib.error):
-                    # Unreadable entry, for example an incomplete one
+                except Exception:
+                    # Unreadable entry, for example an incomplete one; the
+                    # readers raise errors of many types for these
                     cached_exists = False
 
             result = function(*args, **kwargs)
-- 
2.43.0


From 09402b877483acaa9f981a020b74c883d2f6d038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:48 +0000
Subject: [PATCH 30/48] fix: Function.ccode: evaluate products of exponentials
 without overflow

---
 hermipy/function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermipy/function.py b/hermipy/function.py
index 6f0dcc7..8e437fc 100644
--- a/hermipy/function.py
+++ b/hermipy/function.py
@@ -116,7 +116,8 @@ class Function():
         return result
 
     def ccode(self):
-        function = sympy.ccode(self.sym)
+        # The expanded exponentials can overflow when their product does not
+        function = sympy.ccode(sympy.powsimp(self.sym, combine='exp'))
         for i, direction in enumerate(self.dirs):
             function = re.sub(r'\bx{}'.format(direction),
                               'v[{}]'.format(i), function)
-- 
2.43.0


From a3fa4da65453a8a939963acb5644d7586b5a11bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:52 +0000
Subject: [PATCH 31/48] fix: to_spmat: sum repeated entries

---
 cpp/src/hermite/sparse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hermite/sparse.cpp b/cpp/src/hermite/sparse.cpp
index 1ac9c7d..0afb3d4 100644
--- a/cpp/src/hermite/sparse.cpp
+++ b/cpp/src/hermite/sparse.cpp
@@ -79,7 +79,8 @@ spmat to_spmat(const vec & data, const ivec & indices, const ivec & indptr,
     {
         for (u_int j = indptr[i]; j < indptr[i+1]; j++)
         {
-            result(i, indices[j]) = data[j];
+            // Repeated entries are to be summed
+            result(i, indices[j]) += data[j];
         }
     }
     return result;
-- 
2.43.0


From 20bbae3e8919a0506be1f612008fc04817b089f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:04 +0000
Subject: [PATCH 32/48] fix: boost_mat: size1 and size2 of the matrix itself

---
 cpp/src/hermite/python/module.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hermite/python/module.cpp b/cpp/src/hermite/python/module.cpp
index e1369bb..13b1f6d 100644
--- a/cpp/src/hermite/python/module.cpp
+++ b/cpp/src/hermite/python/module.cpp
@@ -72,8 +72,8 @@ BOOST_PYTHON_MODULE(hermite_cpp)
 
     class_<cmat>("contiguous_mat");
     class_<boost_mat>("boost_mat")
-        .def("size1", &spmat::size1)
-        .def("size2", &spmat::size2)
+        .def("size1", &boost_mat::size1)
+        .def("size2", &boost_mat::size2)
         ;
 
     class_<spmat>("sparse_matrix")
-- 
2.43.0


From 67a349fa0e18eefed0330d75da6f8ec45e10062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:55 +0000
Subject: [PATCH 33/48] fix: tensorize, project: refuse directions out of range
 or repeated, and matrices that are not square

---
 cpp/src/hermite/project.cpp   | 8 ++++++++
 cpp/src/hermite/tensorize.cpp | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/cpp/src/hermite/project.cpp b/cpp/src/hermite/project.cpp
index 778f80e..dcbce15 100644
--- a/cpp/src/hermite/project.cpp
+++ b/cpp/src/hermite/project.cpp
@@ -35,9 +35,15 @@ namespace hermite
 
 void check_dirs(u_int dim, const ivec & dirs)
 {
+    std::vector<bool> present(dim, false);
     for (u_int d : dirs)
+    {
         if (d >= dim)
             throw std::invalid_argument("Direction does not exist!");
+        if (present[d])
+            throw std::invalid_argument("The same direction appears twice!");
+        present[d] = true;
+    }
 }
 
 template<typename Iterator>
@@ -89,6 +95,8 @@ M project(const M & input, u_int dim, const ivec & dirs)
 {
     check_dirs(dim, dirs);
     u_int n_polys = matrix::size1(input);
+    if (matrix::size2(input) != n_polys)
+        throw std::invalid_argument("The matrix is not square!");
     u_int dim_sub = dirs.size();
     u_int degree = Iterator::s_get_degree(dim, n_polys);
     u_int polys_sub = Iterator::s_size(dim_sub, degree);
diff --git a/cpp/src/hermite/tensorize.cpp b/cpp/src/hermite/tensorize.cpp
index 02f7e72..213adc5 100644
--- a/cpp/src/hermite/tensorize.cpp
+++ b/cpp/src/hermite/tensorize.cpp
@@ -123,6 +123,7 @@ vec tensorize_vecs_axes(const mat & inputs, std::string const & index_set)
 
 vec tensorize_vec_id(const vec & input, u_int dim, u_int dir, std::string const & index_set)
 {
+    check_dims(imat(1, ivec(1, dir)), dim);
     u_int degree = input.size() - 1;
     vec cst(degree + 1, 0.); cst[0] = 1;
     mat vecs(dim, cst);
@@ -349,6 +350,7 @@ T tensorize_mats_axes(const vector<S> & inputs, std::string const & index_set)
 template<typename T, typename S>
 T tensorize_mat_id(const S & input, u_int dim, u_int dir, std::string const & index_set)
 {
+    check_dims(imat(1, ivec(1, dir)), dim);
     u_int degree = matrix::size1(input) - 1;
     T eye = matrix::eye<T>(degree + 1);
     vector<T> mats(dim, eye);
-- 
2.43.0


From ab1410c3647b62f4a191781ccf22bbeb4f96597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:55 +0000
Subject: [PATCH 34/48] fix: tensorize: take the directions of a set in
 increasing order

---
 hermipy/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/core.py b/hermipy/core.py
index cf52953..e5b6740 100644
--- a/hermipy/core.py
+++ b/hermipy/core.py
@@ -216,7 +216,7 @@ def tensorize(inp, dim=None, direction=None,
         cpp_dirs_mat = hm_cpp.int_mat()
         for dirs, arg in inp.items():
             cpp_dirs = hm_cpp.int_vec()
-            cpp_dirs.extend(list(dirs))
+            cpp_dirs.extend(sorted(dirs))
             cpp_dirs_mat.append(cpp_dirs)
 
             # Works only with dense arguments at the moment
-- 
2.43.0


From 518fc425643bea647962077d4e35dc5669944057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:27 +0000
Subject: [PATCH 35/48] fix: conversions of matrices without rows

---
 cpp/src/hermite/matrix.hpp            | 2 +-
 cpp/src/hermite/python/converters.cpp | 3 ++-
 cpp/src/hermite/sparse.cpp            | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/src/hermite/matrix.hpp b/cpp/src/hermite/matrix.hpp
index 145c402..50100a8 100644
--- a/cpp/src/hermite/matrix.hpp
+++ b/cpp/src/hermite/matrix.hpp
@@ -53,7 +53,7 @@ namespace matrix
 
     inline u_int size2(const mat & input)
     {
-        return input[0].size();
+        return input.empty() ? 0 : input[0].size();
     }
 
     inline u_int size1(const spmat & input)
diff --git a/cpp/src/hermite/python/converters.cpp b/cpp/src/hermite/python/converters.cpp
index 4591b1f..76028b8 100644
--- a/cpp/src/hermite/python/converters.cpp
+++ b/cpp/src/hermite/python/converters.cpp
@@ -27,6 +27,7 @@
 #include <boost/math/special_functions/binomial.hpp>
 #include <boost/python/suite/indexing/vector_indexing_suite.hpp>
 
+#include "hermite/matrix.hpp"
 #include "hermite/python/converters.hpp"
 
 using namespace std;
@@ -39,7 +40,7 @@ template <>
 np::ndarray to_numpy(const mat & input)
 {
     u_int n_rows = input.size();
-    u_int n_cols = input[0].size();
+    u_int n_cols = matrix::size2(input);
     p::tuple shape = p::make_tuple(n_rows, n_cols);
     p::tuple stride = p::make_tuple(sizeof(double));
     np::dtype dtype = np::dtype::get_builtin<double>();
diff --git a/cpp/src/hermite/sparse.cpp b/cpp/src/hermite/sparse.cpp
index 0afb3d4..7fe39d3 100644
--- a/cpp/src/hermite/sparse.cpp
+++ b/cpp/src/hermite/sparse.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include "hermite/matrix.hpp"
 #include "hermite/sparse.hpp"
 #include "hermite/io.hpp"
 
@@ -44,7 +45,7 @@ mat row_col_val(const spmat & input)
 
 spmat to_spmat(const mat & input)
 {
-    spmat result(input.size(), input[0].size());
+    spmat result(input.size(), matrix::size2(input));
     for (u_int i = 0; i < input.size(); i++)
     {
         for (u_int j = 0; j < input[0].size(); j++)
-- 
2.43.0


From a8c7e8417987fb3067c092ca08c3919736c2c93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:57 +0000
Subject: [PATCH 36/48] fix: cross_nc: refuse degree 0, which has no set, like
 cross

---
 cpp/src/hermite/iterators.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index 4860357..94cef98 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -459,6 +459,9 @@ bool Cross_iterator_nc::s_increment(ivec & multi_index, u_int degree)
 Cross_iterator_nc::Cross_iterator_nc(u_int dim, u_int degree)
     : Multi_index_iterator(dim), degree(degree)
 {
+    if (degree == 0)
+        throw std::invalid_argument("Degree of a cross must be positive!");
+
     ivec m(dim, 0);
     u_int ind = 0;
     do
@@ -482,7 +485,10 @@ imat Cross_iterator_nc::s_list(u_int dim, u_int degree)
 
 u_int Cross_iterator_nc::s_get_degree(u_int dim, u_int n_polys)
 {
-    auto function = [dim] (u_int degree) {return s_size(dim, degree);};
+    // There is no set of degree 0
+    if (n_polys == 0)
+        throw std::invalid_argument("No degree for this number of polynomials!");
+    auto function = [dim] (u_int degree) {return degree == 0 ? 0 : s_size(dim, degree);};
     return pos_bissect (n_polys, function, DEGREE_BISSECT_MAX);
 }
 
-- 
2.43.0


From 8073a27315ec00c9fb8227ed7ff93115a6117ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:12 +0000
Subject: [PATCH 37/48] fix: Series: do not round the array of the caller

---
 hermipy/series.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermipy/series.py b/hermipy/series.py
index 823f526..a1f4395 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -97,8 +97,9 @@ class Series:
 does not match number of multi-indices!")
 
         if significant != 0:
-            for i, c in enumerate(self.coeffs):
-                self.coeffs[i] = round(c, significant)
+            # Not in place: the array belongs to the caller
+            self.coeffs = np.array([round(c, significant)
+                                    for c in self.coeffs])
 
         self.factor = func.Function(factor, dirs=self.position.dirs)
 
-- 
2.43.0


From b433e3176ad354beb25d334cbfb7a6f4df4700bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:12 +0000
Subject: [PATCH 38/48] fix: Position.tensorize: refuse shared directions of
 different types

---
 hermipy/position.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 7f40f58..3ec0fb7 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -49,8 +49,9 @@ class Position:
             for d in [d for d in p1.dirs if d in p2.dirs]:
                 i1, i2 = p1.dirs.index(d), p2.dirs.index(d)
                 if not p1.mean[i1] == p2.mean[i2] or \
-                   not p1.cov[i1][i1] == p2.cov[i2][i2]:
-                    raise ValueError("Mean or Cov do not match!")
+                   not p1.cov[i1][i1] == p2.cov[i2][i2] or \
+                   not p1.types[i1] == p2.types[i2]:
+                    raise ValueError("Mean, Cov or types do not match!")
 
             # Tensorization
             for d in dirs_result:
-- 
2.43.0


From 3cc79c615d437575b4ce210e8dd9feaab986b891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:35 +0000
Subject: [PATCH 39/48] fix: Series.to_function: use the Fourier basis in
 Fourier directions

---
 hermipy/series.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hermipy/series.py b/hermipy/series.py
index a1f4395..655e0fc 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -23,6 +23,7 @@ import hermipy.function as func
 
 import numpy as np
 import numpy.linalg as la
+import sympy as sym
 
 from matplotlib.ticker import MaxNLocator
 
@@ -278,6 +279,15 @@ does not match number of multi-indices!")
             μ, σ = self.position.mean[i], self.position.cov[i][i]
             f1 = (var - μ) / np.sqrt(σ)
             h1 = func.Function(f1, dirs=dirs)
+            if self.position.types[i] == "fourier":
+                # 1, sin(x), cos(x), sin(2x), cos(2x), ...
+                basis = [h0 / np.sqrt(2*np.pi)]
+                for j in range(1, self.degree + 1):
+                    f = sym.sin if j % 2 == 1 else sym.cos
+                    fj = f((j + 1)//2 * f1) / np.sqrt(np.pi)
+                    basis.append(func.Function(fj, dirs=dirs))
+                hermite_dirs.append(basis)
+                continue
             hermite_dirs.append([h0, h1])
             for j in range(1, self.degree):
                 hermite_dirs[i].append(hermite_dirs[i][-1]
-- 
2.43.0


From 0c8e38935b32733611824b6b82b07e522db02d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:35 +0000
Subject: [PATCH 40/48] fix: Quad.plot, streamlines: functions, array factors,
 other directions, complex series

---
 hermipy/quad.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index e77df74..b906822 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -493,17 +493,21 @@ class Quad:
 
             series = arg
 
-            # Fix me maybe?
+            # Plot the real part, without changing the argument
             if series.coeffs.dtype == np.dtype('complex128'):
-                series.coeffs = np.real(series.coeffs).copy(order='C')
+                coeffs = np.real(series.coeffs).copy(order='C')
+                series = hm.Series(coeffs, series.position,
+                                   factor=series.factor,
+                                   index_set=series.index_set)
 
             if factor is None:
-                solution = self.eval(series)
+                factor = 1
 
             elif not isinstance(factor, np.ndarray):
                 factor = hm.Function(factor, dirs=self.position.dirs)
                 factor = self.discretize(factor)
-                solution = self.eval(series)*factor
+
+            solution = self.eval(series)*factor
 
             if bounds:
 
@@ -573,17 +577,18 @@ class Quad:
         if isinstance(fx, hm.Function):
             if factor is not None:
                 raise ValueError("Invalid argument!")
-            fx, fy = self.discretize(fx), self.discretize(fy)
+            sx, sy = self.discretize(fx), self.discretize(fy)
 
         elif isinstance(fx, hm.Series):
 
             if factor is None:
-                sx, sy = self.eval(fx), self.eval(fy)
+                factor = 1
 
             elif not isinstance(factor, np.ndarray):
                 factor = hm.Function(factor, dirs=self.position.dirs)
                 factor = self.discretize(factor)
-                sx, sy = self.eval(fx)*factor, self.eval(fy)*factor
+
+            sx, sy = self.eval(fx)*factor, self.eval(fy)*factor
 
         else:
             raise TypeError("Unsupported type: " + str(type(fx)))
@@ -591,9 +596,10 @@ class Quad:
         n_nodes = []
         r_nodes = []
         for i in range(self.position.dim):
-            direction = hm.Function.xyz[self.position.dirs[i]]
+            d = self.position.dirs[i]
+            direction = hm.Function.xyz[d]
             n_nodes.append(len(self.nodes[i]))
-            r_nodes.append(self.project(i).discretize(direction))
+            r_nodes.append(self.project(d).discretize(direction))
         sx, sy = sx.reshape(*n_nodes).T, sy.reshape(*n_nodes).T
         # magnitude = sx**2 + sy**2
         x, y = r_nodes[0], r_nodes[1]
-- 
2.43.0


From b620738595e2f054fa799194154723730c375b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:43 +0000
Subject: [PATCH 41/48] fix: Series, Varf: do not broadcast degree 0 in sums
 and comparisons

---
 hermipy/series.py | 2 ++
 hermipy/varf.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/hermipy/series.py b/hermipy/series.py
index 655e0fc..510aea0 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -112,6 +112,7 @@ does not match number of multi-indices!")
             raise ValueError("Invalid argument!")
         return self.position == other.position \
             and self.factor == other.factor \
+            and self.coeffs.shape == other.coeffs.shape \
             and la.norm(self.coeffs - other.coeffs) < very_small
 
     def __add__(self, other):
@@ -122,6 +123,7 @@ does not match number of multi-indices!")
         elif isinstance(other, Series):
             if not self.position == other.position or \
                not self.index_set == other.index_set or \
+               not self.degree == other.degree or \
                not self.factor == other.factor:
                 raise ValueError("Invalid argument!")
             new_coeffs = self.coeffs + other.coeffs
diff --git a/hermipy/varf.py b/hermipy/varf.py
index 1ab0054..64855c5 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -80,6 +80,7 @@ class Varf:
             raise ValueError("Invalid argument!")
         norm_func = spla.norm if self.is_sparse and other.is_sparse else la.norm
         return self.position == other.position \
+            and self.matrix.shape == other.matrix.shape \
             and norm_func(self.matrix - other.matrix) < very_small
 
     def __add__(self, other):
@@ -90,6 +91,7 @@ class Varf:
         elif isinstance(other, Varf):
             if not self.position == other.position or \
                not self.index_set == other.index_set or \
+               not self.degree == other.degree or \
                not self.factor == other.factor:
                 raise ValueError("Invalid argument!")
             new_matrix = self.matrix + other.matrix
-- 
2.43.0


From bc0586e9742f05a43d16613a2f0a1284a9ac33a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:43 +0000
Subject: [PATCH 42/48] fix: Varf: matrix of a sum of sparse and dense ones is
 an array

---
 hermipy/varf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 64855c5..bb7b899 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -65,7 +65,9 @@ class Varf:
 
     def __init__(self, matrix, position, factor=1, index_set="triangle"):
         self.is_sparse = isinstance(matrix, ss.csr_matrix)
-        self.matrix = matrix
+        # Sums of sparse and dense matrices are of type np.matrix
+        self.matrix = np.asarray(matrix) if isinstance(matrix, np.matrix) \
+            else matrix
         self.position = position
         self.index_set = index_set
 
-- 
2.43.0


From 879a8a5e6332d30a0a58d9c42f192787d6f5e846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:00 +0000
Subject: [PATCH 43/48] fix: Quad: quadratures with different numbers of nodes
 are not equal

---
 hermipy/quad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index b906822..a6554ca 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -163,6 +163,7 @@ class Quad:
 
         return self.position == other.position \
             and self.factor == other.factor \
+            and self.nodes.shape == other.nodes.shape \
             and la.norm(self.nodes - other.nodes) < very_small \
             and la.norm(self.weights - other.weights) < very_small
 
-- 
2.43.0


From 082c8a37c55d60bffa60894e95658e77cc5aa4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:56 +0000
Subject: [PATCH 44/48] fix: Varf.plot: absolute values of sparse matrices too

---
 hermipy/varf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index bb7b899..fbae7c8 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -256,7 +256,7 @@ class Varf:
         rows, cols, data = [], [], []
         if self.is_sparse:
             s = self.matrix.tocoo()
-            rows, cols, data = s.row, s.col, s.data
+            rows, cols, data = s.row, s.col, abs(s.data)
         else:
             for i in range(self.matrix.shape[0]):
                 for j in range(self.matrix.shape[1]):
-- 
2.43.0


From 075f73aa686da54b921429e883066443e6425d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:52 +0000
Subject: [PATCH 45/48] fix: evaluate a series in its own basis on a quadrature
 of another type

---
 hermipy/quad.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index a6554ca..1454b7b 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -322,8 +322,10 @@ class Quad:
         for i, n in enumerate(self.nodes):
             mapped_nodes[i] = n * factor[i][i] + translation[i]
 
+        # The basis is that of the series, whatever the type of the nodes
+        do_fourier = [int(t == "fourier") for t in series.position.types]
         result = core.transform(degree, coeffs, mapped_nodes, self.weights,
-                                forward=False, do_fourier=self.do_fourier,
+                                forward=False, do_fourier=do_fourier,
                                 index_set=series.index_set)
 
         return result*self.discretize(series.factor)
-- 
2.43.0


From cef0f759e39582f46bd851af54b7808003d8733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:37 +0000
Subject: [PATCH 46/48] fix: evaluate the derivatives of products before
 splitting an operator

---
 hermipy/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/operator.py b/hermipy/operator.py
index 40218d4..bb48c37 100644
--- a/hermipy/operator.py
+++ b/hermipy/operator.py
@@ -119,7 +119,7 @@ class Operator():
         MAX_ORDER = 5
         variables = [func.Function.x_sub[d] for d in self.dirs]
         unknown, dim = self.f(*variables), len(variables)
-        result, rem = {}, self.sym.expand()
+        result, rem = {}, self.sym.doit().expand()
         mult = list(m for m in itertools.product(range(MAX_ORDER + 1),
                     repeat=dim) if sum(m) <= MAX_ORDER)
         for m in mult:
-- 
2.43.0


From ac0a141c4fc93530f612a77399116a9af7c4feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:47 +0000
Subject: [PATCH 47/48] fix: refuse to split operators that are not linear

---
 hermipy/operator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hermipy/operator.py b/hermipy/operator.py
index bb48c37..51174a0 100644
--- a/hermipy/operator.py
+++ b/hermipy/operator.py
@@ -120,6 +120,13 @@ class Operator():
         variables = [func.Function.x_sub[d] for d in self.dirs]
         unknown, dim = self.f(*variables), len(variables)
         result, rem = {}, self.sym.doit().expand()
+
+        # Only linear operators can be split
+        for arg in sympy.Add.make_args(rem):
+            double = arg.subs(unknown, 2*unknown).doit() - 2*arg
+            if double.expand() != 0:
+                raise ValueError("Operator is not linear: " + str(arg))
+
         mult = list(m for m in itertools.product(range(MAX_ORDER + 1),
                     repeat=dim) if sum(m) <= MAX_ORDER)
         for m in mult:
-- 
2.43.0


From e62a82b808eca2256707e300b7c8a6587d2c5535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:33 +0000
Subject: [PATCH 48/48] fix: round the coefficients of a transform after
 tensorization, not before

---
 hermipy/quad.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 1454b7b..2007353 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -285,11 +285,22 @@ class Quad:
         elif n == 1:
             return self.integrate(abs(function), flat=flat)
 
+    def transform(self, function, degree, index_set="triangle",
+                  significant=0, tensorize=None):
+
+        series = self._transform(function, degree, index_set=index_set,
+                                 tensorize=tensorize)
+
+        # Rounded last: the product of rounded coefficients is not rounded
+        return hm.Series(series.coeffs, series.position,
+                         factor=series.factor, index_set=series.index_set,
+                         significant=significant)
+
     @tensorize_at(1)
     @stats.debug()
     @stats.log_stats()
-    def transform(self, function, degree, index_set="triangle",
-                  significant=0, tensorize=None):
+    def _transform(self, function, degree, index_set="triangle",
+                   tensorize=None):
 
         if not isinstance(function, np.ndarray):
             function = hm.Function(function, dirs=self.position.dirs)
@@ -303,8 +314,7 @@ class Quad:
                                 index_set=index_set)
 
         return hm.Series(coeffs, self.position,
-                         factor=self.factor, index_set=index_set,
-                         significant=significant)
+                         factor=self.factor, index_set=index_set)
 
     def eval(self, series):
 
-- 
2.43.0

