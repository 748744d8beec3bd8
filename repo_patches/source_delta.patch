From 8d4499c89552ff05b6a87ffc7ecf0ee45ef8fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 01/25] fix: AlgorithmReducibleRecursionAndTempering: the
 4-argument search could not be instantiated

---
 include/MTToolBox/AlgorithmReducibleRT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MTToolBox/AlgorithmReducibleRT.hpp b/include/MTToolBox/AlgorithmReducibleRT.hpp
index a2b8279..0d106b7 100644
--- a/include/MTToolBox/AlgorithmReducibleRT.hpp
+++ b/include/MTToolBox/AlgorithmReducibleRT.hpp
@@ -230,7 +230,7 @@ namespace MTToolBox {
          * state transition function are found.
          *\endenglish
          */
-        bool search(TemperingCalculatable<U>& rg,
+        bool search(G& rg,
                     AlgorithmTempering<U>& st,
                     bool verbose = false,
                     std::ostream& os = std::cout) {
-- 
2.43.0


From 456e271d94d825f3c38c250b76c0223b05a98be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:33 +0000
Subject: [PATCH 02/25] fix: throw exception objects, not pointers or string
 literals

---
 include/MTToolBox/AlgorithmCalculateParity.hpp |  4 ++--
 .../MTToolBox/AlgorithmEquidistribution.hpp    | 16 ++++++++--------
 .../dSFMTdc/AlgorithmDSFMTEquidistribution.hpp | 18 +++++++++---------
 samples/dSFMTdc/calc_fixpoint.cpp              |  4 ++--
 samples/dSFMTdc/calc_fixpoint_main.cpp         |  2 +-
 samples/dSFMTdc/make_old_format.cpp            |  2 +-
 .../sfmtdc/AlgorithmSIMDEquidistribution.hpp   | 18 +++++++++---------
 7 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/include/MTToolBox/AlgorithmCalculateParity.hpp b/include/MTToolBox/AlgorithmCalculateParity.hpp
index 9c92c2d..1157cd9 100644
--- a/include/MTToolBox/AlgorithmCalculateParity.hpp
+++ b/include/MTToolBox/AlgorithmCalculateParity.hpp
@@ -356,7 +356,7 @@ namespace MTToolBox {
                 if (pivot >= size) {
                     cout << "pivot > size error pivot = " << dec << pivot
                          << " size = " << dec << size << endl;
-                    throw "pivot > size error";
+                    throw std::logic_error("pivot > size error");
                 }
                 if (isZero(bases[pivot].next)) {
                     add_state(bases[pivot], work);
@@ -420,7 +420,7 @@ namespace MTToolBox {
             kernel(my, mx);
             if (my.NumRows() == 0) {
                 cout << "parity vector can't find" << endl;
-                throw "parity vector can't find";
+                throw std::logic_error("parity vector can't find");
             }
 #if defined(DEBUG)
             cout << "dim mx = "<< mx.NumRows() << endl;
diff --git a/include/MTToolBox/AlgorithmEquidistribution.hpp b/include/MTToolBox/AlgorithmEquidistribution.hpp
index db940a9..59528a5 100644
--- a/include/MTToolBox/AlgorithmEquidistribution.hpp
+++ b/include/MTToolBox/AlgorithmEquidistribution.hpp
@@ -624,13 +624,13 @@ namespace MTToolBox {
                 cout << "pivot_index = " << dec << pivot_index << endl;
                 cout << "zero = " << basis[bit_len]->zero << endl;
                 cout << "next = " << hex << basis[bit_len]->next << endl;
-                throw new std::logic_error("pivot error 0");
+                throw std::logic_error("pivot error 0");
             }
             if (pivot_index >= bit_len) {
                 cout << "pivot_index = " << dec << pivot_index << endl;
                 cout << "bit_len = " << bit_len << endl;
                 cout << "next = " << hex << basis[bit_len]->next << endl;
-                throw new std::logic_error("pivot error 0.1");
+                throw std::logic_error("pivot error 0.1");
             }
             if (pivot_index != calc_1pos(basis[pivot_index]->next)) {
                 cerr << "pivot error 1" << endl;
@@ -638,7 +638,7 @@ namespace MTToolBox {
                 cerr << "calc_1pos:" << dec
                      << calc_1pos(basis[pivot_index]->next) << endl;
                 cerr << "next:" << hex << basis[pivot_index]->next << endl;
-                throw new std::logic_error("pivot error 1");
+                throw std::logic_error("pivot error 1");
             }
 #endif
             // アルゴリズムとして、全部のcount を平均的に大きくしたい。
@@ -672,13 +672,13 @@ namespace MTToolBox {
                     cout << "pivot_index = " << dec << pivot_index << endl;
                     cout << "bit_len = " << bit_len << endl;
                     cout << "next = " << hex << basis[bit_len]->next << endl;
-                    throw new std::logic_error("pivot error 1.1");
+                    throw std::logic_error("pivot error 1.1");
                 }
                 if (basis[bit_len]->zero) {
                     cout << "loop exit condition" << endl;
                 } else if (pivot_index == -1) {
                     cerr << "pivot error 1.1" << endl;
-                    throw new std::logic_error("pivot error 1.2");
+                    throw std::logic_error("pivot error 1.2");
                 }
 #endif
             // 全部0でなければ、pivot_index は小さくなる。
@@ -691,13 +691,13 @@ namespace MTToolBox {
                     cout << "pivot_index = " << dec << pivot_index << endl;
                     cout << "bit_len = " << bit_len << endl;
                     cout << "next = " << hex << basis[bit_len]->next << endl;
-                    throw new std::logic_error("pivot error 2");
+                    throw std::logic_error("pivot error 2");
                 }
                 if (old_pivot <= pivot_index) {
                     cerr << "pivot error 2" << endl;
                     cerr << "old_pivot = " << dec << old_pivot << endl;
                     cerr << "pivot_index = " << dec << pivot_index << endl;
-                    throw new std::logic_error("pivot error 2.1");
+                    throw std::logic_error("pivot error 2.1");
                 }
             }
         }
@@ -725,7 +725,7 @@ namespace MTToolBox {
             cerr << "bit_len = " << bit_len << endl;
             cerr << "over theoretical bound " << (stateBitSize / bit_len)
                  << endl;
-            throw new std::logic_error("over theoretical bound");
+            throw std::logic_error("over theoretical bound");
         }
         return min_count;
     }
diff --git a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
index 3331286..1ce7b08 100644
--- a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
+++ b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
@@ -580,13 +580,13 @@ namespace MTToolBox {
                 cout << "pivot_index = " << dec << pivot_index << endl;
                 cout << "zero = " << basis[bitSize]->zero << endl;
                 cout << "next = " << hex << basis[bitSize]->next << endl;
-                throw new std::logic_error("pivot error 0");
+                throw std::logic_error("pivot error 0");
             }
             if (pivot_index >= bitSize) {
                 cout << "pivot_index = " << dec << pivot_index << endl;
                 cout << "bitSize = " << bitSize << endl;
                 cout << "next = " << hex << basis[bitSize]->next << endl;
-                throw new std::logic_error("pivot error 0.1");
+                throw std::logic_error("pivot error 0.1");
             }
             if (pivot_index != calc_1pos(basis[pivot_index]->next)) {
                 cerr << "pivot error 1" << endl;
@@ -597,7 +597,7 @@ namespace MTToolBox {
                 for (int i = 0; i < bitSize; i++) {
                     cerr << dec << i << ":" << hex << basis[i]->next << endl;
                 }
-                throw new std::logic_error("pivot error 1");
+                throw std::logic_error("pivot error 1");
             }
 #endif
             // アルゴリズムとして、全部のcount を平均的に大きくしたい。
@@ -628,13 +628,13 @@ namespace MTToolBox {
                     cout << "pivot_index = " << dec << pivot_index << endl;
                     cout << "bitSize = " << bitSize << endl;
                     cout << "next = " << hex << basis[bitSize]->next << endl;
-                    throw new std::logic_error("pivot error 1.1");
+                    throw std::logic_error("pivot error 1.1");
                 }
                 if (basis[bitSize]->zero) {
                     cout << "loop exit condition" << endl;
                 } else if (pivot_index == -1) {
                     cerr << "pivot error 1.1" << endl;
-                    throw new std::logic_error("pivot error 1.2");
+                    throw std::logic_error("pivot error 1.2");
                 }
 #endif
             // 全部0でなければ、pivot_index は小さくなる。
@@ -647,13 +647,13 @@ namespace MTToolBox {
                     cout << "pivot_index = " << dec << pivot_index << endl;
                     cout << "bitSize = " << bitSize << endl;
                     cout << "next = " << hex << basis[bitSize]->next << endl;
-                    throw new std::logic_error("pivot error 2");
+                    throw std::logic_error("pivot error 2");
                 }
                 if (old_pivot <= pivot_index) {
                     cerr << "pivot error 2" << endl;
                     cerr << "old_pivot = " << dec << old_pivot << endl;
                     cerr << "pivot_index = " << dec << pivot_index << endl;
-                    throw new std::logic_error("pivot error 2.1");
+                    throw std::logic_error("pivot error 2.1");
                 }
             }
         }
@@ -689,7 +689,7 @@ namespace MTToolBox {
                 basis[i]->debug_print();
             }
 #endif
-            throw new std::logic_error("over theoretical bound");
+            throw std::logic_error("over theoretical bound");
         }
 #if defined(DEBUG)
         cout << "get_equidist_main end" << endl;
@@ -746,7 +746,7 @@ namespace MTToolBox {
                         cout << " mexp = " << dec << mexp;
                         cout << " e = " << dec << e;
                         cout << " v = " << dec << v << endl;
-                        throw new std::logic_error("over theoretical bound");
+                        throw std::logic_error("over theoretical bound");
                     }
 #if 0
                     cout << "\tk(" << dec << v << ") = " << dec
diff --git a/samples/dSFMTdc/calc_fixpoint.cpp b/samples/dSFMTdc/calc_fixpoint.cpp
index 41627ec..e82068a 100644
--- a/samples/dSFMTdc/calc_fixpoint.cpp
+++ b/samples/dSFMTdc/calc_fixpoint.cpp
@@ -22,7 +22,7 @@ w128_t calc_fixpoint(const dSFMT& dsfmt, const GF2X& irreducible,
     XGCD(d, a, b, irreducible, quotient);
     if (deg(d) != 0) {
         cout << "failure d != 1" << endl;
-        throw new logic_error("failure d != 1");
+        throw logic_error("failure d != 1");
     }
     b *= quotient;
     a *= irreducible;
@@ -38,7 +38,7 @@ w128_t calc_fixpoint(const dSFMT& dsfmt, const GF2X& irreducible,
         cout << "deg(d) = " << dec << deg(d) << endl;
         cout << "deg(irreducible) = " << dec << deg(irreducible) << endl;
         cout << "deg(t1) = " << dec << deg(t1) << endl;
-        throw new logic_error("failure d != 1");
+        throw logic_error("failure d != 1");
     }
     annihilate<w128_t>(&dsfmt_const, b);
     return dsfmt_const.getParityValue();
diff --git a/samples/dSFMTdc/calc_fixpoint_main.cpp b/samples/dSFMTdc/calc_fixpoint_main.cpp
index 0c148b4..d08cb05 100644
--- a/samples/dSFMTdc/calc_fixpoint_main.cpp
+++ b/samples/dSFMTdc/calc_fixpoint_main.cpp
@@ -100,7 +100,7 @@ static bool chk_fix1(w128_t& fix, const dSFMT& dsfmt, const GF2X& irreducible,
         cout << "deg(d) = " << dec << deg(d) << endl;
         cout << "deg(irreducible) = " << dec << deg(irreducible) << endl;
         cout << "deg(t1) = " << dec << deg(t1) << endl;
-        throw new logic_error("failure d != 1");
+        throw logic_error("failure d != 1");
     }
     annihilate<w128_t>(&dsfmt_const, b);
 
diff --git a/samples/dSFMTdc/make_old_format.cpp b/samples/dSFMTdc/make_old_format.cpp
index c927d4c..09549f8 100644
--- a/samples/dSFMTdc/make_old_format.cpp
+++ b/samples/dSFMTdc/make_old_format.cpp
@@ -97,7 +97,7 @@ void get_fixpoint(dSFMT& dsfmt)
         cout << "error does not have factor of degree " << dec << dsfmt.getMexp()
              << endl;
         cout << "degree = " << dec << deg(irreducible) << endl;
-        throw new logic_error("error does not have factor of degree ");
+        throw logic_error("error does not have factor of degree ");
     }
     lcmpoly = poly;
     getLCMPoly(lcmpoly, dsfmt);
diff --git a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
index d3d771b..f0eca7a 100644
--- a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
+++ b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
@@ -611,13 +611,13 @@ namespace MTToolBox {
                 cout << "pivot_index = " << dec << pivot_index << endl;
                 cout << "zero = " << basis[bitSize]->zero << endl;
                 cout << "next = " << hex << basis[bitSize]->next << endl;
-                throw new std::logic_error("pivot error 0");
+                throw std::logic_error("pivot error 0");
             }
             if (pivot_index >= bitSize) {
                 cout << "pivot_index = " << dec << pivot_index << endl;
                 cout << "bitSize = " << bitSize << endl;
                 cout << "next = " << hex << basis[bitSize]->next << endl;
-                throw new std::logic_error("pivot error 0.1");
+                throw std::logic_error("pivot error 0.1");
             }
             if (pivot_index != calc_1pos(basis[pivot_index]->next)) {
                 cerr << "pivot error 1" << endl;
@@ -628,7 +628,7 @@ namespace MTToolBox {
                 for (int i = 0; i < bitSize; i++) {
                     cerr << dec << i << ":" << hex << basis[i]->next << endl;
                 }
-                throw new std::logic_error("pivot error 1");
+                throw std::logic_error("pivot error 1");
             }
 #endif
             // アルゴリズムとして、全部のcount を平均的に大きくしたい。
@@ -659,13 +659,13 @@ namespace MTToolBox {
                     cout << "pivot_index = " << dec << pivot_index << endl;
                     cout << "bitSize = " << bitSize << endl;
                     cout << "next = " << hex << basis[bitSize]->next << endl;
-                    throw new std::logic_error("pivot error 1.1");
+                    throw std::logic_error("pivot error 1.1");
                 }
                 if (basis[bitSize]->zero) {
                     cout << "loop exit condition" << endl;
                 } else if (pivot_index == -1) {
                     cerr << "pivot error 1.1" << endl;
-                    throw new std::logic_error("pivot error 1.2");
+                    throw std::logic_error("pivot error 1.2");
                 }
 #endif
             // 全部0でなければ、pivot_index は小さくなる。
@@ -678,13 +678,13 @@ namespace MTToolBox {
                     cout << "pivot_index = " << dec << pivot_index << endl;
                     cout << "bitSize = " << bitSize << endl;
                     cout << "next = " << hex << basis[bitSize]->next << endl;
-                    throw new std::logic_error("pivot error 2");
+                    throw std::logic_error("pivot error 2");
                 }
                 if (old_pivot <= pivot_index) {
                     cerr << "pivot error 2" << endl;
                     cerr << "old_pivot = " << dec << old_pivot << endl;
                     cerr << "pivot_index = " << dec << pivot_index << endl;
-                    throw new std::logic_error("pivot error 2.1");
+                    throw std::logic_error("pivot error 2.1");
                 }
             }
         }
@@ -720,7 +720,7 @@ namespace MTToolBox {
                 basis[i]->debug_print();
             }
 #endif
-            throw new std::logic_error("over theoretical bound");
+            throw std::logic_error("over theoretical bound");
         }
 #if defined(DEBUG)
         cout << "get_equidist_main end" << endl;
@@ -781,7 +781,7 @@ namespace MTToolBox {
                         cout << " mexp = " << dec << mexp;
                         cout << " e = " << dec << e;
                         cout << " v = " << dec << v << endl;
-                        throw new std::logic_error("over theoretical bound");
+                        throw std::logic_error("over theoretical bound");
                     }
 #if 0
                     cout << "\tk(" << dec << v << ") = " << dec
-- 
2.43.0


From 0b746bc6bdc96b3c9bd7d4dcea06d45a722bb9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:33 +0000
Subject: [PATCH 03/25] fix: AlgorithmCalculateParity leaked its work generator

---
 include/MTToolBox/AlgorithmCalculateParity.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/MTToolBox/AlgorithmCalculateParity.hpp b/include/MTToolBox/AlgorithmCalculateParity.hpp
index 1157cd9..c51f8ba 100644
--- a/include/MTToolBox/AlgorithmCalculateParity.hpp
+++ b/include/MTToolBox/AlgorithmCalculateParity.hpp
@@ -160,6 +160,7 @@ namespace MTToolBox {
             for (int i = 0; i < word_width; i++) {
                 delete bases[i].rg;
             }
+            delete work_base.rg;
 #if defined(DEBUG)
             cout << "----" << endl;
             for (int i = 0; i < word_width; i++) {
-- 
2.43.0


From a2fd9299b112fc7e4cb694c349a18adfeece6494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 04/25] fix: AlgorithmReducibleEquidistribution leaked its copy
 of the generator

---
 include/MTToolBox/AlgorithmReducibleEquidistribution.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp b/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
index a91550d..0c2f9f9 100644
--- a/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
+++ b/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
@@ -74,12 +74,12 @@ namespace MTToolBox {
                                            const NTL::GF2X irreducibleFactor,
                                            int bit_length,
                                            int mexp) {
-            G * rand = new G(rg);
+            G rand(rg);
             NTL::GF2X poly(0,1);
-            calcCharacteristicPolynomial(rand, poly);
+            calcCharacteristicPolynomial(&rand, poly);
             NTL::GF2X quotient = poly / irreducibleFactor;
-            annihilate<U>(rand, quotient);
-            ae = new AlgorithmEquidistribution<U>(*rand, bit_length, mexp);
+            annihilate<U>(&rand, quotient);
+            ae = new AlgorithmEquidistribution<U>(rand, bit_length, mexp);
         }
 
         /**
-- 
2.43.0


From 6b8c1a4aa7958f1d7cd069a8eb83236e2d9c09ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 05/25] fix: classes owning raw memory were implicitly copyable
 and freed it twice

---
 include/MTToolBox/AlgorithmBestBits.hpp                  | 5 +++++
 include/MTToolBox/AlgorithmEquidistribution.hpp          | 2 ++
 include/MTToolBox/AlgorithmPrimitivity.hpp               | 2 ++
 include/MTToolBox/AlgorithmReducibleEquidistribution.hpp | 2 ++
 include/MTToolBox/MersenneTwister.hpp                    | 2 ++
 include/MTToolBox/MersenneTwister64.hpp                  | 2 ++
 6 files changed, 15 insertions(+)

diff --git a/include/MTToolBox/AlgorithmBestBits.hpp b/include/MTToolBox/AlgorithmBestBits.hpp
index 6b96656..63e707e 100644
--- a/include/MTToolBox/AlgorithmBestBits.hpp
+++ b/include/MTToolBox/AlgorithmBestBits.hpp
@@ -146,6 +146,9 @@ namespace MTToolBox {
             return ss.str();
         }
 #endif
+    private:
+        temper_params(const temper_params&);
+        temper_params& operator=(const temper_params&);
     };
 
     /**
@@ -350,6 +353,8 @@ namespace MTToolBox {
             return false;
         }
     private:
+        AlgorithmBestBits(const AlgorithmBestBits&);
+        AlgorithmBestBits& operator=(const AlgorithmBestBits&);
         int limit;
         int bit_len;
         int size;
diff --git a/include/MTToolBox/AlgorithmEquidistribution.hpp b/include/MTToolBox/AlgorithmEquidistribution.hpp
index 59528a5..800855a 100644
--- a/include/MTToolBox/AlgorithmEquidistribution.hpp
+++ b/include/MTToolBox/AlgorithmEquidistribution.hpp
@@ -325,6 +325,8 @@ namespace MTToolBox {
         int get_all_equidist(int veq[]);
         int get_equidist(int *sum_equidist);
     private:
+        AlgorithmEquidistribution(const AlgorithmEquidistribution&);
+        AlgorithmEquidistribution& operator=(const AlgorithmEquidistribution&);
         int get_equidist_main(int bit_len);
         void adjust(int new_len);
 
diff --git a/include/MTToolBox/AlgorithmPrimitivity.hpp b/include/MTToolBox/AlgorithmPrimitivity.hpp
index 31243d3..b0b1d35 100644
--- a/include/MTToolBox/AlgorithmPrimitivity.hpp
+++ b/include/MTToolBox/AlgorithmPrimitivity.hpp
@@ -105,6 +105,8 @@ namespace MTToolBox {
          */
         bool operator()(int max_degree, const NTL::GF2X& poly) const;
     private:
+        AlgorithmPrimitivity(const AlgorithmPrimitivity&);
+        AlgorithmPrimitivity& operator=(const AlgorithmPrimitivity&);
         bool mersenne;
         NTL::Vec<NTL::ZZ> * primes;
     };
diff --git a/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp b/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
index 0c2f9f9..b7d8c4d 100644
--- a/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
+++ b/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
@@ -109,6 +109,8 @@ namespace MTToolBox {
             return ae->get_equidist(sum_equidist);
         }
     private:
+        AlgorithmReducibleEquidistribution(const AlgorithmReducibleEquidistribution&);
+        AlgorithmReducibleEquidistribution& operator=(const AlgorithmReducibleEquidistribution&);
         AlgorithmEquidistribution<U> *ae;
     };
 }
diff --git a/include/MTToolBox/MersenneTwister.hpp b/include/MTToolBox/MersenneTwister.hpp
index 118b0d0..bc14147 100644
--- a/include/MTToolBox/MersenneTwister.hpp
+++ b/include/MTToolBox/MersenneTwister.hpp
@@ -296,6 +296,8 @@ namespace MTToolBox {
         }
 
     private:
+        MersenneTwister(const MersenneTwister&);
+        MersenneTwister& operator=(const MersenneTwister&);
         enum {LARGE_N = 1024, N = 624, M = 397};
         uint32_t *mt;    /* the array for the state vector  */
         unsigned int mti;
diff --git a/include/MTToolBox/MersenneTwister64.hpp b/include/MTToolBox/MersenneTwister64.hpp
index cf7e6c5..472bf95 100644
--- a/include/MTToolBox/MersenneTwister64.hpp
+++ b/include/MTToolBox/MersenneTwister64.hpp
@@ -306,6 +306,8 @@ namespace MTToolBox {
             return 19937;
         }
     private:
+        MersenneTwister64(const MersenneTwister64&);
+        MersenneTwister64& operator=(const MersenneTwister64&);
         enum {N = 312, M = 156};
         uint64_t *mt;    /* the array for the state vector  */
         int mti;
-- 
2.43.0


From 426f5e2f8ac4ab3cecd720c62b630836bf71e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 06/25] fix: AlgorithmBestBits measured candidates before
 setUpTempering()

---
 include/MTToolBox/AlgorithmBestBits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/MTToolBox/AlgorithmBestBits.hpp b/include/MTToolBox/AlgorithmBestBits.hpp
index 63e707e..cac201e 100644
--- a/include/MTToolBox/AlgorithmBestBits.hpp
+++ b/include/MTToolBox/AlgorithmBestBits.hpp
@@ -397,6 +397,7 @@ namespace MTToolBox {
                 for (int j = 0; j < size; j++) {
                     rand.setTemperingPattern(mask, pattern->param[j], j);
                 }
+                rand.setUpTempering();
                 pattern->delta = get_equidist(rand, v_bit + 1);
                 if (verbose) {
                     cout << "pattern->delta:" << dec << pattern->delta << endl;
-- 
2.43.0


From c2452a23a37658abc2d4ea1b0f968189bdc932d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 07/25] fix: Sequential default constructor left the counter
 uninitialised

---
 include/MTToolBox/Sequential.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/MTToolBox/Sequential.hpp b/include/MTToolBox/Sequential.hpp
index 8e2264d..a8689e1 100644
--- a/include/MTToolBox/Sequential.hpp
+++ b/include/MTToolBox/Sequential.hpp
@@ -56,6 +56,9 @@ namespace MTToolBox {
          *\endenglish
          */
         Sequential() {
+            status = static_cast<T>(-1);
+            mask = 0;
+            error = false;
         }
 
         /**
-- 
2.43.0


From 82e7bd7610c78dabd31d4c67fc10db0366493916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 08/25] fix: fromGF2Vec and AlgorithmCalculateParity shifted by
 a negative count

---
 include/MTToolBox/AlgorithmCalculateParity.hpp | 4 +++-
 include/MTToolBox/util.hpp                     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/MTToolBox/AlgorithmCalculateParity.hpp b/include/MTToolBox/AlgorithmCalculateParity.hpp
index c51f8ba..4c56f04 100644
--- a/include/MTToolBox/AlgorithmCalculateParity.hpp
+++ b/include/MTToolBox/AlgorithmCalculateParity.hpp
@@ -416,7 +416,9 @@ namespace MTToolBox {
                 }
                 pos--;
                 setZero(mask);
-                setBitOfPos(&mask, pos, 1);
+                if (pos >= 0) {
+                    setBitOfPos(&mask, pos, 1);
+                }
             }
             kernel(my, mx);
             if (my.NumRows() == 0) {
diff --git a/include/MTToolBox/util.hpp b/include/MTToolBox/util.hpp
index 1e42906..d5348de 100644
--- a/include/MTToolBox/util.hpp
+++ b/include/MTToolBox/util.hpp
@@ -667,7 +667,9 @@ namespace MTToolBox {
             }
             pos--;
             setZero(mask);
-            setBitOfPos(&mask, pos, 1);
+            if (pos >= 0) {
+                setBitOfPos(&mask, pos, 1);
+            }
         }
         return result;
     }
-- 
2.43.0


From 26cd689f0244eefac6ace19f8d7db1784a03a200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 09/25] fix: ParameterGenerator.hpp did not include <stdint.h>

---
 include/MTToolBox/ParameterGenerator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/MTToolBox/ParameterGenerator.hpp b/include/MTToolBox/ParameterGenerator.hpp
index f4a6eea..c798714 100644
--- a/include/MTToolBox/ParameterGenerator.hpp
+++ b/include/MTToolBox/ParameterGenerator.hpp
@@ -20,6 +20,7 @@
  * The 3-clause BSD License is applied to this software, see
  * LICENSE.txt
  */
+#include <stdint.h>
 
 /**
  * @namespace MTToolBox
-- 
2.43.0


From 1d30620a6da3ae6af626f2670a360f53d8bc3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 10/25] fix: AlgorithmReducibleEquidistribution.hpp could not
 be used on its own

---
 include/MTToolBox/AlgorithmReducibleEquidistribution.hpp | 1 +
 include/MTToolBox/AlgorithmReducibleRecursionSearch.hpp  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp b/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
index b7d8c4d..1a9f1e8 100644
--- a/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
+++ b/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
@@ -24,6 +24,7 @@
  */
 
 #include <MTToolBox/ReducibleGenerator.hpp>
+#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
 #include <MTToolBox/AlgorithmEquidistribution.hpp>
 
 namespace MTToolBox {
diff --git a/include/MTToolBox/AlgorithmReducibleRecursionSearch.hpp b/include/MTToolBox/AlgorithmReducibleRecursionSearch.hpp
index a971808..85b7f3d 100644
--- a/include/MTToolBox/AlgorithmReducibleRecursionSearch.hpp
+++ b/include/MTToolBox/AlgorithmReducibleRecursionSearch.hpp
@@ -44,7 +44,7 @@ namespace MTToolBox {
     using namespace std;
 
     template<typename U>
-    void calcCharacteristicPolynomial(RecursionSearchable<U> *rand,
+    void calcCharacteristicPolynomial(ReducibleGenerator<U> *rand,
                                       NTL::GF2X& poly);
     /**
      * @class AlgorithmReducibleRecursionSearch
-- 
2.43.0


From 3612f82bc030764b863acc3d664814c5824630c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 11/25] fix: RMT64Search::setOneBit shifted an int by up to 63

---
 samples/RMT/rmt64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/RMT/rmt64.hpp b/samples/RMT/rmt64.hpp
index 23a7245..3ffe367 100644
--- a/samples/RMT/rmt64.hpp
+++ b/samples/RMT/rmt64.hpp
@@ -128,7 +128,7 @@ public:
 #endif
             return;
         }
-        state[idx] = 1 << r;
+        state[idx] = UINT64_C(1) << r;
 #if defined(DEBUG) && 0
         debug_print();
         fflush(stdout);
-- 
2.43.0


From 1f6d36e3f21842792a33d62d560f8a5f67b1322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 12/25] fix: tinymt32 clone lost the reverse-output mode

---
 samples/TinyMTDC/tinymt32search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/TinyMTDC/tinymt32search.hpp b/samples/TinyMTDC/tinymt32search.hpp
index 3fa9084..9841971 100644
--- a/samples/TinyMTDC/tinymt32search.hpp
+++ b/samples/TinyMTDC/tinymt32search.hpp
@@ -145,7 +145,7 @@ namespace tinymt {
          */
         tinymt32(const tinymt32& src) : TemperingCalculatable<uint32_t>(),
                                         param(src.param) {
-            reverse_bit_flag = false;
+            reverse_bit_flag = src.reverse_bit_flag;
             status[0] = src.status[0];
             status[1] = src.status[1];
             status[2] = src.status[2];
-- 
2.43.0


From bb750c76ad22f72c494a5df478c1db6816d852f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 13/25] fix: sample generators left parameters uninitialised
 and were assignable despite owning memory

---
 samples/MTDC/mt2.cpp  | 3 +++
 samples/RMT/rmt64.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index e55a6ca..c73bd94 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -30,6 +30,8 @@ public:
         upper_mask = 0;
         upper_mask = (~upper_mask) << r;
         lower_mask = ~upper_mask;
+        mata = 0;
+        pos = 0;
         maskb = 0;
         maskc = 0;
         id = ident;
@@ -217,6 +219,7 @@ public:
     }
 #endif
 private:
+    MT32Search& operator=(const MT32Search&);
     int mexp;
     int size;
     bool reverse;
diff --git a/samples/RMT/rmt64.hpp b/samples/RMT/rmt64.hpp
index 3ffe367..c20346e 100644
--- a/samples/RMT/rmt64.hpp
+++ b/samples/RMT/rmt64.hpp
@@ -21,6 +21,8 @@ class RMT64Search
 public:
     RMT64Search(int mersenne_exponent, uint64_t v) {
         mexp = mersenne_exponent;
+        pos = 0;
+        mata = 0;
         maskb = 0;
         maskc = 0;
         parity = 0;
@@ -251,6 +253,7 @@ public:
     }
 #endif
 private:
+    RMT64Search& operator=(const RMT64Search&);
     enum {sh1 = 29, sh2 = 17, sh3 = 37, sh4 = 43};
     int mexp;
     int size;
-- 
2.43.0


From dd22c828be087465fd162be74567d9c3d62d862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 14/25] fix: isZero of the Mersenne Twister samples masked the
 wrong word (mtgp32: with an uninitialised mask)

---
 samples/MTDC/mt1.cpp            | 4 ++--
 samples/MTDC/mt2.cpp            | 4 ++--
 samples/MTGPDC/MTGP32search.hpp | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/samples/MTDC/mt1.cpp b/samples/MTDC/mt1.cpp
index 4beff09..4d89817 100644
--- a/samples/MTDC/mt1.cpp
+++ b/samples/MTDC/mt1.cpp
@@ -40,10 +40,10 @@ public:
     }
 
     bool isZero() const {
-        if ((upper_mask & state[index]) != 0) {
+        if ((upper_mask & state[(index + 1) % N]) != 0) {
             return false;
         }
-        for (int i = 1; i < N; i++) {
+        for (int i = 2; i <= N; i++) {
             if (state[(index + i) % N] != 0) {
                 return false;
             }
diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index c73bd94..825cfac 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -104,10 +104,10 @@ public:
     }
 
     bool isZero() const {
-        if ((upper_mask & state[index]) != 0) {
+        if ((upper_mask & state[(index + 1) % size]) != 0) {
             return false;
         }
-        for (int i = 1; i < size; i++) {
+        for (int i = 2; i <= size; i++) {
             if (state[(index + i) % size] != 0) {
                 return false;
             }
diff --git a/samples/MTGPDC/MTGP32search.hpp b/samples/MTGPDC/MTGP32search.hpp
index 2720d43..536d76a 100644
--- a/samples/MTGPDC/MTGP32search.hpp
+++ b/samples/MTGPDC/MTGP32search.hpp
@@ -275,10 +275,10 @@ namespace mtgp {
          * @return true if all elements of status is zero
          */
         bool isZero() const {
-            if ((state[idx] & mask) != 0) {
+            if ((state[(idx + 1) % state_size] & param.mask) != 0) {
                 return false;
             }
-            for (int i = 1; i < state_size; i++) {
+            for (int i = 2; i <= state_size; i++) {
                 if (state[(idx + i) % state_size] != 0) {
                     return false;
                 }
@@ -305,7 +305,7 @@ namespace mtgp {
             return reverse_bit_flag;
         }
     private:
-        uint32_t mask;
+        mtgp32& operator=(const mtgp32&);
         int state_size;
         mtgp_param<uint32_t> param;
         int idx;
-- 
2.43.0


From 7ad0ce8649205fefeba6119c492b322df5e46dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 15/25] fix: mtgp_param printed uninitialised members

---
 samples/MTGPDC/mtgp_param.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/samples/MTGPDC/mtgp_param.h b/samples/MTGPDC/mtgp_param.h
index 6fc46f3..744dac2 100644
--- a/samples/MTGPDC/mtgp_param.h
+++ b/samples/MTGPDC/mtgp_param.h
@@ -29,6 +29,13 @@ namespace mtgp {
     template<typename T> class mtgp_param {
     public:
         mtgp_param() {
+            mexp = 0;
+            pos = 0;
+            sh1 = 0;
+            sh2 = 0;
+            id = 0;
+            mask = 0;
+            sha1[0] = 0;
             for (int i = 0; i < 4; i++) {
                 tbl[i] = 0;
                 tmp_tbl[i] = 0;
@@ -57,12 +64,9 @@ namespace mtgp {
             for (int i = 0; i < 16; i++) {
                 tp[i] = that.tp[i];
             }
-#if defined(USE_SHA)
-            for (int i = 0; i < SHA_DIGEST_LENGTH * 2; i++) {
+            for (unsigned int i = 0; i < sizeof(sha1); i++) {
                 sha1[i] = that.sha1[i];
             }
-            sha1[0] = that.sha1[0];
-#endif
         }
 
 #if __cplusplus >= 201103L
-- 
2.43.0


From de7517a9c57a784eb5ba43173b8ae38934250f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 16/25] fix: sample programs read uninitialised options and a
 stale errno

---
 samples/MTDC/mt2.cpp            | 2 ++
 samples/MTGPDC/parse_opt.cpp    | 1 +
 samples/XORSHIFT/xorshift-4.cpp | 1 +
 3 files changed, 4 insertions(+)

diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index 825cfac..01f388c 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -276,6 +276,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
     opt.count = 1;
     opt.max_delta = INT_MAX;
     opt.all = false;
+    opt.start = 0;
+    opt.seed = 1;
     errno = 0;
     for (;;) {
 //        c = getopt_long(argc, argv, "vas:m:f:c:S:", longopts, NULL);
diff --git a/samples/MTGPDC/parse_opt.cpp b/samples/MTGPDC/parse_opt.cpp
index 707528d..02bd004 100644
--- a/samples/MTGPDC/parse_opt.cpp
+++ b/samples/MTGPDC/parse_opt.cpp
@@ -36,6 +36,7 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
         {NULL, 0, NULL, 0}};
     opt.verbose = false;
     opt.count = 1;
+    errno = 0;
     for (;;) {
         c = getopt_long(argc, argv, "vs:f:c:", longopts, NULL);
         if (error) {
diff --git a/samples/XORSHIFT/xorshift-4.cpp b/samples/XORSHIFT/xorshift-4.cpp
index f41bc02..f1da984 100644
--- a/samples/XORSHIFT/xorshift-4.cpp
+++ b/samples/XORSHIFT/xorshift-4.cpp
@@ -20,6 +20,7 @@ using namespace NTL;
 class XorShift : public EquidistributionCalculatable<uint32_t> {
 public:
     XorShift(uint32_t v) {
+        pat = 0;
         a = 0;
         b = 0;
         c = 0;
-- 
2.43.0


From d4be8ddc97bcfce9b74b7ae04b67bc0a55496ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 17/25] fix: xorshift128_init_by_array discarded the state it
 computed

---
 samples/XORSHIFT/xorshift128.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/samples/XORSHIFT/xorshift128.c b/samples/XORSHIFT/xorshift128.c
index 26807ea..bd7cf55 100644
--- a/samples/XORSHIFT/xorshift128.c
+++ b/samples/XORSHIFT/xorshift128.c
@@ -93,6 +93,10 @@ void xorshift128_init_by_array(xorshift128_t * xor,
         st[i % size] = r;
         i = (i + 1) % size;
     }
+    xor->x = st[0];
+    xor->y = st[1];
+    xor->z = st[2];
+    xor->w = st[3];
     period_certification(xor);
 }
 
-- 
2.43.0


From 33031d313de1ed434a53c6934df4a9d0eda3ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 18/25] fix: dSFMT::isZero tested half of the previous word it
 later outputs

---
 samples/dSFMTdc/dSFMTsearch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/dSFMTdc/dSFMTsearch.hpp b/samples/dSFMTdc/dSFMTsearch.hpp
index e54d833..74699c9 100644
--- a/samples/dSFMTdc/dSFMTsearch.hpp
+++ b/samples/dSFMTdc/dSFMTsearch.hpp
@@ -424,7 +424,7 @@ namespace MTToolBox {
                 return true;
             case 1:
             default:
-                return previous.u[1] == 0;
+                return previous.u64[1] == 0;
             }
         }
 
-- 
2.43.0


From 3f3b9d388700b8889c34979944d88c8f89b32c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 19/25] fix: get_range printed to stdout and exited the process
 successfully on a bad range

---
 include/MTToolBox/util.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/MTToolBox/util.hpp b/include/MTToolBox/util.hpp
index d5348de..5546daa 100644
--- a/include/MTToolBox/util.hpp
+++ b/include/MTToolBox/util.hpp
@@ -169,9 +169,7 @@ namespace MTToolBox {
     template<typename T>
     int get_range(T input, int start, int end) {
         if (end < start) {
-            //printf("get_range:%d, %d\n", start, end);
-            std::cout << "get_range:" << start << ", " << end << std::endl;
-            exit(0);
+            throw std::invalid_argument("get_range: end < start");
         }
         return static_cast<int>(input % static_cast<unsigned int>((end - start + 1)))
             + start;
-- 
2.43.0


From daa5c9dbe720e1352b2e3b0fa9d5adafda6f397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 20/25] fix: AlgorithmCalculateParity wrote an error message
 into the result stream

---
 include/MTToolBox/AlgorithmCalculateParity.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/MTToolBox/AlgorithmCalculateParity.hpp b/include/MTToolBox/AlgorithmCalculateParity.hpp
index 4c56f04..531de28 100644
--- a/include/MTToolBox/AlgorithmCalculateParity.hpp
+++ b/include/MTToolBox/AlgorithmCalculateParity.hpp
@@ -422,7 +422,6 @@ namespace MTToolBox {
             }
             kernel(my, mx);
             if (my.NumRows() == 0) {
-                cout << "parity vector can't find" << endl;
                 throw std::logic_error("parity vector can't find");
             }
 #if defined(DEBUG)
-- 
2.43.0


From 72f8b3258857bad797510ca376e1e882e2cfd907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 21/25] fix: the Mersenne exponent list omitted 24036583

isMexp() and isPrime(poly) answered false for a degree that is a Mersenne
exponent.
---
 lib/period.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/period.cpp b/lib/period.cpp
index 556a495..0c77c76 100644
--- a/lib/period.cpp
+++ b/lib/period.cpp
@@ -17,7 +17,7 @@ namespace MTToolBox {
      2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701,
      23209, 44497, 86243, 110503, 132049, 216091, 756839, 859433,
      1257787, 1398269, 2976221, 3021377, 6972593, 13466917,
-     20996011, 25964951, -1};
+     20996011, 24036583, 25964951, -1};
 
     /**
      * 既約判定
-- 
2.43.0


From 9bad83830e547f5553f36df87b6480682d61c8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 22/25] fix: sample equidistribution classes owning memory were
 implicitly copyable

---
 samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp | 3 +++
 samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
index 1ce7b08..81f55e8 100644
--- a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
+++ b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
@@ -325,6 +325,9 @@ namespace MTToolBox {
 
         int get_equidist(int bitLen);
     private:
+        // owns memory: not copyable
+        AlgorithmDSFMTEquidistribution(const AlgorithmDSFMTEquidistribution&);
+        AlgorithmDSFMTEquidistribution& operator=(const AlgorithmDSFMTEquidistribution&);
         int get_equidist_main(int bit_len);
 
         /**
diff --git a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
index f0eca7a..635974e 100644
--- a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
+++ b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
@@ -331,6 +331,9 @@ namespace MTToolBox {
 
         int get_equidist(int bitLen);
     private:
+        // owns memory: not copyable
+        AlgorithmSIMDEquidistribution(const AlgorithmSIMDEquidistribution&);
+        AlgorithmSIMDEquidistribution& operator=(const AlgorithmSIMDEquidistribution&);
         int get_equidist_main(int bit_len);
 
         /**
-- 
2.43.0


From f6fa6ae0027dd281d24401e1644c604551dd4c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:00 +0000
Subject: [PATCH 23/25] fix: two-stage reducible search measures the defect
 against the Mersenne exponent

---
 include/MTToolBox/AlgorithmReducibleRT.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/MTToolBox/AlgorithmReducibleRT.hpp b/include/MTToolBox/AlgorithmReducibleRT.hpp
index 0d106b7..b3c81e7 100644
--- a/include/MTToolBox/AlgorithmReducibleRT.hpp
+++ b/include/MTToolBox/AlgorithmReducibleRT.hpp
@@ -166,9 +166,10 @@ namespace MTToolBox {
             NTL::GF2X quotient = lcm / poly;
             annihilate(&rg, quotient);
             if (verbose) {
-                AlgorithmEquidistribution<U> sb(rg, bit_size<U>());
+                AlgorithmEquidistribution<U> sb(rg, bit_size<U>(),
+                                                rg.getMexp());
                 int delta = sb.get_all_equidist(veq);
-                print_kv(veq, mexp, bit_size<U>());
+                print_kv(veq, rg.getMexp(), bit_size<U>());
                 *out << "delta = " << dec << delta << endl;
             }
             if (! no_lsb) {
@@ -177,25 +178,27 @@ namespace MTToolBox {
                     if (st2.isLSBTempering()) {
                         rg.setReverseOutput();
                     }
-                    AlgorithmEquidistribution<U> sc(rg, bit_size<U>());
+                    AlgorithmEquidistribution<U> sc(rg, bit_size<U>(),
+                                                rg.getMexp());
                     delta = sc.get_all_equidist(veq);
                     rg.resetReverseOutput();
                     time_t t = time(NULL);
                     *out << "lsb tempering parameters are found at "
                          << ctime(&t) << endl;
-                    print_kv(veq, mexp, bit_size<U>());
+                    print_kv(veq, rg.getMexp(), bit_size<U>());
                     *out << "lsb delta = " << dec << delta << endl;
                 }
             }
             st1(rg, verbose);
-            AlgorithmEquidistribution<U> sc(rg, bit_size<U>());
+            AlgorithmEquidistribution<U> sc(rg, bit_size<U>(),
+                                                rg.getMexp());
             delta = sc.get_all_equidist(veq);
             if (verbose) {
                 time_t t = time(NULL);
                 *out << "tempering parameters are found at " << ctime(&t)
                      << endl;
                 *out << rg.getParamString() << endl;
-                print_kv(veq, mexp, bit_size<U>());
+                print_kv(veq, rg.getMexp(), bit_size<U>());
                 *out << "delta = " << dec << delta << endl;
             }
             return true;
-- 
2.43.0


From aa7952af9aabad43d6935e09f2c87a24faab41d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:02 +0000
Subject: [PATCH 24/25] fix: calc_1pos negated the most negative number (signed
 overflow) for the top bit

---
 include/MTToolBox/util.hpp | 10 ++++------
 samples/dSFMTdc/w128.hpp   | 10 ++++------
 samples/sfmtdc/w128.hpp    | 10 ++++------
 3 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/include/MTToolBox/util.hpp b/include/MTToolBox/util.hpp
index 5546daa..faff37a 100644
--- a/include/MTToolBox/util.hpp
+++ b/include/MTToolBox/util.hpp
@@ -314,9 +314,8 @@ namespace MTToolBox {
         if (x == 0) {
             return -1;
         }
-        int32_t y = (int32_t)x;
-        y = count_bit((uint32_t)(y & -y) - 1);
-        return 31 - y;
+        uint32_t lowest = x & (~x + 1);
+        return 31 - count_bit(lowest - 1);
     }
 
     /**
@@ -348,9 +347,8 @@ namespace MTToolBox {
         if (x == 0) {
             return -1;
         }
-        int64_t y = (int64_t)x;
-        y = count_bit((uint64_t)(y & -y) - 1);
-        return 63 - static_cast<int>(y);
+        uint64_t lowest = x & (~x + 1);
+        return 63 - count_bit(lowest - 1);
     }
 
     /**
diff --git a/samples/dSFMTdc/w128.hpp b/samples/dSFMTdc/w128.hpp
index b419cca..3ac112d 100644
--- a/samples/dSFMTdc/w128.hpp
+++ b/samples/dSFMTdc/w128.hpp
@@ -211,13 +211,11 @@ namespace MTToolBox {
             return -1;
         }
         if (x.u64[0] == 0) {
-            int64_t y = static_cast<int64_t>(x.u64[1]);
-            y = count_bit(static_cast<uint64_t>(y & -y) - 1);
-            return 63 - static_cast<int>(y);
+            uint64_t y = x.u64[1];
+            return 63 - count_bit((y & (~y + 1)) - 1);
         } else {
-            int64_t y = static_cast<int64_t>(x.u64[0]);
-            y = count_bit(static_cast<uint64_t>(y & -y) - 1);
-            return 63 - static_cast<int>(y) + 64;
+            uint64_t y = x.u64[0];
+            return 63 - count_bit((y & (~y + 1)) - 1) + 64;
         }
     }
 
diff --git a/samples/sfmtdc/w128.hpp b/samples/sfmtdc/w128.hpp
index d9cc2af..805f89d 100644
--- a/samples/sfmtdc/w128.hpp
+++ b/samples/sfmtdc/w128.hpp
@@ -212,13 +212,11 @@ namespace MTToolBox {
             return -1;
         }
         if (x.u64[0] == 0) {
-            int64_t y = (int64_t)x.u64[1];
-            y = count_bit((uint64_t)(y & -y) - 1);
-            return 63 - static_cast<int>(y);
+            uint64_t y = x.u64[1];
+            return 63 - count_bit((y & (~y + 1)) - 1);
         } else {
-            int64_t y = (int64_t)x.u64[0];
-            y = count_bit((uint64_t)(y & -y) - 1);
-            return 63 - static_cast<int>(y) + 64;
+            uint64_t y = x.u64[0];
+            return 63 - count_bit((y & (~y + 1)) - 1) + 64;
         }
     }
 
-- 
2.43.0


From e1a6fb26c67109ad8c71255f45ed9648d9c3bd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:34 +0000
Subject: [PATCH 25/25] fix: sample equidistribution headers needed another
 header included first

---
 samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp | 1 +
 samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
index 81f55e8..da1f093 100644
--- a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
+++ b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
@@ -707,6 +707,7 @@ namespace MTToolBox {
                                    DSFMTInfo& info,
                                    int mexp)
     {
+        using namespace std;
         int state_inc = 1;
         int weight_max = info.elementNo;
         int state_max = weight_max;
diff --git a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
index 635974e..50a60cb 100644
--- a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
+++ b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
@@ -739,6 +739,7 @@ namespace MTToolBox {
                                    int mexp,
                                    bool lsb = false)
     {
+        using namespace std;
         int state_inc;
         int weight_max = info.bitSize / 32;
         int state_max = weight_max;
-- 
2.43.0

