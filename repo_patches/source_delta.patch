From 073ce7487c203ee411f6f22c7d52d1320a2c48b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 01/68] fix: uniform_int: add the lower bound when the range is
 a power of the engine range

---
 include/boost/random/uniform_int_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/uniform_int_distribution.hpp b/include/boost/random/uniform_int_distribution.hpp
index 8a3ea7b..6acff25 100644
--- a/include/boost/random/uniform_int_distribution.hpp
+++ b/include/boost/random/uniform_int_distribution.hpp
@@ -120,7 +120,7 @@ T generate_uniform_int(
           if(mult * range_type(brange) == range - mult + 1) {
               // The destination range is an integer power of
               // the generator's range.
-              return(result);
+              return random::detail::add<range_type, result_type>()(result, min_value);
           }
 
           // Postcondition: mult <= range
-- 
2.43.0


From b3274aa267ccc13317e9375180f5117d8d840f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 02/68] fix: subtract_with_carry: discard from the start of the
 buffer must update the state

---
 include/boost/random/subtract_with_carry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 6497884..4173194 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -69,7 +69,7 @@ struct subtract_with_carry_discard
 
         k = ((z % long_lag) + k) % long_lag;
 
-        if(k < z) {
+        if(k <= z) {
             // main loop: update full blocks from k = 0 to long_lag
             for(std::size_t i = 0; i < (z - k) / long_lag; ++i) {
                 for(std::size_t j = 0; j < short_lag; ++j) {
-- 
2.43.0


From 623973a29e822e800d2e86ce22560fb204c07c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 03/68] fix: generate: do not write outside an empty range

---
 include/boost/random/detail/seed_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/detail/seed_impl.hpp b/include/boost/random/detail/seed_impl.hpp
index 5e79582..dcb7cc6 100644
--- a/include/boost/random/detail/seed_impl.hpp
+++ b/include/boost/random/detail/seed_impl.hpp
@@ -85,6 +85,7 @@ template<class Engine, class Iter>
 void generate_from_real(Engine& eng, Iter begin, Iter end)
 {
     using std::fmod;
+    if(begin == end) return;
     typedef typename Engine::result_type RealType;
     const int Bits = detail::generator_bits<Engine>::value();
     int remaining_bits = 0;
@@ -131,6 +132,7 @@ void generate_from_real(Engine& eng, Iter begin, Iter end)
 template<class Engine, class Iter>
 void generate_from_int(Engine& eng, Iter begin, Iter end)
 {
+    if(begin == end) return;
     typedef typename Engine::result_type IntType;
     typedef typename boost::random::traits::make_unsigned<IntType>::type unsigned_type;
     int remaining_bits = 0;
-- 
2.43.0


From fe68780ae9dd44269c0be4635516953231d358b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 04/68] fix: seed_seq: generate must accept an empty range

---
 include/boost/random/seed_seq.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/random/seed_seq.hpp b/include/boost/random/seed_seq.hpp
index b0b1de2..60500e0 100644
--- a/include/boost/random/seed_seq.hpp
+++ b/include/boost/random/seed_seq.hpp
@@ -65,6 +65,7 @@ public:
     void generate(Iter first, Iter last) const
     {
         typedef typename std::iterator_traits<Iter>::value_type value_type;
+        if(first == last) return;
         std::fill(first, last, static_cast<value_type>(0x8b8b8b8bu));
         std::size_t s = v.size();
         std::size_t n = last - first;
-- 
2.43.0


From a19bd92f38101e4a0e1f3a45e6900d70632f53e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 05/68] fix: mixmax: accept a saved state whose counter is at
 the end of the vector

---
 include/boost/random/mixmax.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/mixmax.hpp b/include/boost/random/mixmax.hpp
index 3f09fc3..aebdfa1 100644
--- a/include/boost/random/mixmax.hpp
+++ b/include/boost/random/mixmax.hpp
@@ -145,7 +145,7 @@ public: // SEEDING FUNCTIONS
         in >> std::ws >> vec[j] ;
         sum=me.MOD_MERSENNE(sum+vec[j]);
     }
-    if (sum == savedsum && counter>0 && counter<Ndim){
+    if (sum == savedsum && counter>0 && counter<=Ndim){
         me.S.V=vec; me.S.counter = counter; me.S.sumtot=savedsum;
     }else{
         in.setstate(std::ios::failbit);
-- 
2.43.0


From 8627f6ce7e165c5bf11b6e4d3af9a2af5737e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 06/68] fix: generate_canonical: scale every value of a
 real-valued engine the same way

---
 include/boost/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index 5f45b4e..d849f53 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -60,7 +60,7 @@ RealType generate_canonical_impl(URNG& g, boost::false_type /*is_integral*/)
     RealType R = pow(RealType(2), RealType(engine_bits));
     RealType mult = R;
     RealType limit = pow(RealType(2), RealType(b));
-    RealType S = RealType(g() - (g.min)());
+    RealType S(floor((RealType(g()) - RealType((g.min)())) * R));
     while(mult < limit) {
         RealType inc(floor((RealType(g()) - RealType((g.min)())) * R));
         S += inc * mult;
-- 
2.43.0


From 7956b7877af7c44c8fa68b089ebb1a27c176488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 07/68] fix: discrete_distribution: detect overflow of the sum
 of integer weights

---
 include/boost/random/discrete_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index c6c25fe..fdf539e 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -113,7 +113,7 @@ struct integer_alias_table {
                 iter = weights.begin(), end = weights.end();
             iter != end; ++iter)
         {
-            if((std::numeric_limits<WeightType>::max)() - result > *iter) {
+            if((std::numeric_limits<WeightType>::max)() - result < *iter) {
                 return static_cast<WeightType>(0);
             }
             result += *iter;
-- 
2.43.0


From eacfc818879b1b1bcea076011b96b8ec858ae4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 08/68] fix: linear_feedback_shift: keep the state within w
 bits in wider word types

---
 include/boost/random/linear_feedback_shift.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index a5c2ce7..19d5779 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -91,8 +91,8 @@ public:
         UIntType, s0)
     {
         value = s0 & wordmask();
-        if(value < (1 << (w-k))) {
-            value += 1 << (w-k);
+        if(value < (UIntType(1) << (w-k))) {
+            value += UIntType(1) << (w-k);
         }
     }
     
@@ -118,7 +118,7 @@ public:
     {
         const UIntType b = (((value << q) ^ value) & wordmask()) >> (k-s);
         const UIntType mask = (wordmask() << (w-k)) & wordmask();
-        value = ((value & mask) << s) ^ b;
+        value = (((value & mask) << s) & wordmask()) ^ b;
         return value;
     }
   
-- 
2.43.0


From ccb13236a7cedf5cd3c55b3ecd4dbf00803c35b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 09/68] fix: generate_int_float_pair: handle a last chunk that
 uses all the bits of an engine value

---
 include/boost/random/detail/int_float_pair.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/detail/int_float_pair.hpp b/include/boost/random/detail/int_float_pair.hpp
index 7ec2e26..12d14e7 100644
--- a/include/boost/random/detail/int_float_pair.hpp
+++ b/include/boost/random/detail/int_float_pair.hpp
@@ -81,14 +81,15 @@ std::pair<RealType, int> generate_int_float_pair(Engine& eng, boost::true_type)
         }
         r = RealType(u >> (w%m)) * mult;
     }
-    for(std::size_t i = m - w%m; i + m < digits; i += m) {
+    std::size_t used = m - w%m;
+    for(; used + m < digits; used += m) {
         base_unsigned u = generate_one_digit(eng, m);
         r += u;
         r *= RealType(0.5)/RealType(base_unsigned(1) << (m - 1));
     }
-    if (m - w%m < digits)
+    if (used < digits)
     {
-        const std::size_t remaining = (digits - m + w%m) % m;
+        const std::size_t remaining = digits - used;
         base_unsigned u = generate_one_digit(eng, m);
         r += u & ((base_unsigned(2) << (remaining - 1)) - 1);
         const RealType mult = RealType(0.5)/RealType(base_unsigned(1) << (remaining - 1));
-- 
2.43.0


From ff7140c1f6b123dc3567db4e9099e2b04317096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 10/68] fix: splitmix64: operator>> must read only the state of
 the engine

---
 include/boost/random/splitmix64.hpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/include/boost/random/splitmix64.hpp b/include/boost/random/splitmix64.hpp
index dd89ab5..7e86305 100644
--- a/include/boost/random/splitmix64.hpp
+++ b/include/boost/random/splitmix64.hpp
@@ -154,18 +154,7 @@ public:
     inline friend std::basic_istream<CharT,Traits>& operator>>(std::basic_istream<CharT,Traits>& ist,
                                                                splitmix64& e)
     {
-        std::string sstate;
-        CharT val;
-        while (ist >> val)
-        {
-            if (std::isdigit(val))
-            {
-                sstate.push_back(val);
-            }
-        }
-        
-        e.state_ = std::strtoull(sstate.c_str(), nullptr, 10);
-
+        ist >> e.state_;
         return ist;
     }
 
-- 
2.43.0


From c80bfaae850f0974190ede0bebe3b1c0f6e0734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 11/68] fix: hyperexponential_distribution: normalize the
 probabilities of the iterator constructor

---
 include/boost/random/hyperexponential_distribution.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/hyperexponential_distribution.hpp b/include/boost/random/hyperexponential_distribution.hpp
index 3a71c9e..624333e 100644
--- a/include/boost/random/hyperexponential_distribution.hpp
+++ b/include/boost/random/hyperexponential_distribution.hpp
@@ -336,7 +336,9 @@ class hyperexponential_distribution
         : probs_(std::distance(rate_first, rate_last), 1), // will be normalized below
           rates_(rate_first, rate_last)
         {
-            BOOST_ASSERT(probs_.size() == rates_.size());
+            hyperexp_detail::normalize(probs_);
+
+            BOOST_ASSERT( hyperexp_detail::check_params(probs_, rates_) );
         }
 
         /**
-- 
2.43.0


From ff882085789363979e8f5ca52de08b2901cd8ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 12/68] fix: binomial_distribution: do not return more
 successes than trials

---
 include/boost/random/binomial_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index 78d1a12..1f85f9a 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -375,7 +375,7 @@ private:
         RealType r = _u.q_n;
         RealType u = uniform_01<RealType>()(urng);
         IntType x = 0;
-        while(u > r) {
+        while(u > r && x < t) {
             u = u - r;
             ++x;
             RealType r1 = ((a/x) - s) * r;
-- 
2.43.0


From b4b6db35ad6bd7fe898f3c3ec952bc2c76ba2967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 13/68] fix: binomial_distribution: avoid integer overflow when
 t is the largest integer

---
 include/boost/random/binomial_distribution.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index 1f85f9a..8fd2483 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -275,13 +275,13 @@ private:
         RealType p = (0.5 < _p)? (1 - _p) : _p;
         IntType t = _t;
         
-        m = static_cast<IntType>((t+1)*p);
+        m = static_cast<IntType>((RealType(t)+1)*p);
 
         if(use_inversion()) {
             _u.q_n = pow((1 - p), static_cast<RealType>(t));
         } else {
             _u.btrd.r = p/(1-p);
-            _u.btrd.nr = (t+1)*_u.btrd.r;
+            _u.btrd.nr = (RealType(t)+1)*_u.btrd.r;
             _u.btrd.npq = t*p*(1-p);
             RealType sqrt_npq = sqrt(_u.btrd.npq);
             _u.btrd.b = 1.15 + 2.53 * sqrt_npq;
@@ -353,7 +353,7 @@ private:
                            + fc(m) + fc(_t - m);
 
                 IntType nk = _t - k + 1;
-                if(v <= h + (_t+1)*log(static_cast<RealType>(nm)/nk)
+                if(v <= h + (RealType(_t)+1)*log(static_cast<RealType>(nm)/nk)
                           + (k + 0.5)*log(nk*_u.btrd.r/(k+1))
                           - fc(k)
                           - fc(_t - k))
@@ -371,7 +371,7 @@ private:
     {
         RealType q = 1 - p;
         RealType s = p / q;
-        RealType a = (t + 1) * s;
+        RealType a = (RealType(t) + 1) * s;
         RealType r = _u.q_n;
         RealType u = uniform_01<RealType>()(urng);
         IntType x = 0;
-- 
2.43.0


From 6e3ae02ca4e2d61d76d76abe354b0dfece71d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 14/68] fix: binomial_distribution: reject out of range
 candidates before converting them to an integer

---
 include/boost/random/binomial_distribution.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index 8fd2483..1927e4e 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -318,8 +318,9 @@ private:
             }
 
             RealType us = 0.5 - abs(u);
-            IntType k = static_cast<IntType>(floor((2*_u.btrd.a/us + _u.btrd.b)*u + _u.btrd.c));
-            if(k < 0 || k > _t) continue;
+            RealType kr = floor((2*_u.btrd.a/us + _u.btrd.b)*u + _u.btrd.c);
+            if(kr < 0 || kr > _t) continue;
+            IntType k = static_cast<IntType>(kr);
             v = v*_u.btrd.alpha/(_u.btrd.a/(us*us) + _u.btrd.b);
             RealType km = abs(k - m);
             if(km <= 15) {
-- 
2.43.0


From 4c1bfd92c8f88a966465553282f17cf86b920d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 15/68] fix: poisson_distribution: stop the inversion when the
 remaining probability is negligible

---
 include/boost/random/poisson_distribution.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/poisson_distribution.hpp b/include/boost/random/poisson_distribution.hpp
index 1281a7d..bccf0ef 100644
--- a/include/boost/random/poisson_distribution.hpp
+++ b/include/boost/random/poisson_distribution.hpp
@@ -326,7 +326,13 @@ private:
         while(u > p) {
             u = u - p;
             ++x;
-            p = _mean * p / x;
+            RealType p1 = _mean * p / x;
+            // Round-off error can leave u above the sum of all the
+            // probabilities, so stop in the far tail.
+            if(p1 < std::numeric_limits<RealType>::epsilon() && p1 < p) {
+                break;
+            }
+            p = p1;
         }
         return x;
     }
-- 
2.43.0


From fb49cd79d12f6e86936ea540b5f0b25327c9d50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 16/68] fix: geometric_distribution, triangle_distribution:
 read the parameters with full precision

---
 include/boost/random/geometric_distribution.hpp | 2 +-
 include/boost/random/triangle_distribution.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/geometric_distribution.hpp b/include/boost/random/geometric_distribution.hpp
index 90374cf..f6692f1 100644
--- a/include/boost/random/geometric_distribution.hpp
+++ b/include/boost/random/geometric_distribution.hpp
@@ -76,7 +76,7 @@ public:
         /** Reads the parameters from a std::istream. */
         BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, param_type, parm)
         {
-            double p_in;
+            RealType p_in;
             if(is >> p_in) {
                 if(p_in > RealType(0) && p_in < RealType(1)) {
                     parm._p = p_in;
diff --git a/include/boost/random/triangle_distribution.hpp b/include/boost/random/triangle_distribution.hpp
index 6d37e2b..956dd0d 100644
--- a/include/boost/random/triangle_distribution.hpp
+++ b/include/boost/random/triangle_distribution.hpp
@@ -74,7 +74,7 @@ public:
         /** Reads the parameters from a @c std::istream. */
         BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, param_type, parm)
         {
-            double a_in, b_in, c_in;
+            RealType a_in, b_in, c_in;
             if(is >> a_in >> std::ws >> b_in >> std::ws >> c_in) {
                 if(a_in <= b_in && b_in <= c_in) {
                     parm._a = a_in;
-- 
2.43.0


From 7b19ba5e9aee272dec5415c60ae58bf6e799d81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 17/68] fix: triangle_distribution: keep rounding errors inside
 [a, c]

---
 include/boost/random/triangle_distribution.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/triangle_distribution.hpp b/include/boost/random/triangle_distribution.hpp
index 956dd0d..ffbeb97 100644
--- a/include/boost/random/triangle_distribution.hpp
+++ b/include/boost/random/triangle_distribution.hpp
@@ -162,10 +162,14 @@ public:
     {
         using std::sqrt;
         result_type u = uniform_01<result_type>()(eng);
+        result_type x;
         if( u <= q1 )
-            return _a + p1*sqrt(u);
+            x = _a + p1*sqrt(u);
         else
-        return _c - d3*sqrt(d2*u-d1);
+            x = _c - d3*sqrt(d2*u-d1);
+        if(x < _a) return _a;
+        if(_c < x) return _c;
+        return x;
     }
 
     /**
-- 
2.43.0


From d571f9e5bf518af432dceeb7dab8ac01007deb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 18/68] fix: negative_binomial_distribution: a zero gamma
 variate means zero failures

---
 include/boost/random/negative_binomial_distribution.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/negative_binomial_distribution.hpp b/include/boost/random/negative_binomial_distribution.hpp
index cbe26fa..2fc059f 100644
--- a/include/boost/random/negative_binomial_distribution.hpp
+++ b/include/boost/random/negative_binomial_distribution.hpp
@@ -116,8 +116,11 @@ public:
     template<class URNG>
     IntType operator()(URNG& urng) const
     {
+        if(_k == 0 || _p == 1) return 0;
         gamma_distribution<RealType> gamma(_k, (1-_p)/_p);
-        poisson_distribution<IntType, RealType> poisson(gamma(urng));
+        RealType mean = gamma(urng);
+        if(mean == 0) return 0;
+        poisson_distribution<IntType, RealType> poisson(mean);
         return poisson(urng);
     }
     
-- 
2.43.0


From c0231bc1de353a0d93553daa2d6ae1ca33566f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 19/68] fix: piecewise_constant_distribution: ignore the
 weights when there are no intervals

---
 include/boost/random/piecewise_constant_distribution.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index 488f41c..cd1077c 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -134,6 +134,7 @@ public:
                 _intervals.clear();
                 _intervals.push_back(RealType(0));
                 _intervals.push_back(RealType(1));
+                _weights.clear();
                 _weights.push_back(WeightType(1));
             }
         }
@@ -321,6 +322,7 @@ public:
         _intervals(boost::begin(intervals_arg), boost::end(intervals_arg))
     {
         if(_intervals.size() < 2) {
+            _bins = discrete_distribution<std::size_t, WeightType>();
             _intervals.clear();
             _intervals.push_back(RealType(0));
             _intervals.push_back(RealType(1));
-- 
2.43.0


From 5be11acc9459cd99867be2b6b959ed6a5b3c5f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 20/68] fix: subtract_with_carry: engines that differ in the
 carry are not equal

---
 include/boost/random/subtract_with_carry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 4173194..a043702 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -249,7 +249,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /**
@@ -483,7 +483,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /** Returns true if the two generators will produce different sequences. */
-- 
2.43.0


From d25b6cb47b1b87e983e91105b5a033c4c0f85d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 21/68] fix: xor_combine: advertise bounds that contain every
 value

---
 include/boost/random/xor_combine.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/xor_combine.hpp b/include/boost/random/xor_combine.hpp
index 312fdb8..5d7826e 100644
--- a/include/boost/random/xor_combine.hpp
+++ b/include/boost/random/xor_combine.hpp
@@ -136,10 +136,10 @@ public:
 
     /** Returns the smallest value that the generator can produce. */
     static BOOST_CONSTEXPR result_type min BOOST_PREVENT_MACRO_SUBSTITUTION ()
-    { return (URNG1::min)()<(URNG2::min)()?(URNG1::min)():(URNG2::min)(); }
+    { return 0; }
     /** Returns the largest value that the generator can produce. */
     static BOOST_CONSTEXPR result_type max BOOST_PREVENT_MACRO_SUBSTITUTION ()
-    { return (URNG1::max)()>(URNG2::max)()?(URNG1::max)():(URNG2::max)(); }
+    { return fill_bits(((URNG1::max)() << s1) | ((URNG2::max)() << s2), 1); }
 
     /**
      * Writes the textual representation of the generator to a @c std::ostream.
@@ -167,6 +167,13 @@ public:
     BOOST_RANDOM_DETAIL_INEQUALITY_OPERATOR(xor_combine_engine)
 
 private:
+    // sets all the bits below the highest one of x
+    static BOOST_CONSTEXPR result_type fill_bits(result_type x, int shift)
+    {
+        return shift >= std::numeric_limits<result_type>::digits? x :
+            fill_bits(x | (x >> shift), shift * 2);
+    }
+
     base1_type _rng1;
     base2_type _rng2;
 };
@@ -198,8 +205,8 @@ public:
     xor_combine(const URNG1 & rng1, const URNG2 & rng2)
       : base_type(rng1, rng2) { }
 
-    result_type min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (std::min)((this->base1().min)(), (this->base2().min)()); }
-    result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (std::max)((this->base1().min)(), (this->base2().max)()); }
+    result_type min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (base_type::min)(); }
+    result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (base_type::max)(); }
 };
 
 /// \endcond
-- 
2.43.0


From 33e46b1a6dc2c18be8f599b72e361891fca8cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 22/68] fix: discrete_distribution: never fall back to a value
 with zero weight

---
 include/boost/random/discrete_distribution.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index fdf539e..6cef998 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -452,6 +452,7 @@ public:
             WeightType val = impl_type::generate_in_range(urng, limit);
             WeightType sum = 0;
             std::size_t result = 0;
+            std::size_t last = 0;
             for(typename std::vector<WeightType>::const_iterator
                     iter = parm._probabilities.begin(),
                     end = parm._probabilities.end();
@@ -461,11 +462,14 @@ public:
                 if(sum > val) {
                     return result;
                 }
+                if(*iter != WeightType(0)) {
+                    last = result;
+                }
             }
             // This shouldn't be reachable, but round-off error
             // can prevent any match from being found when val is
             // very close to 1.
-            return static_cast<IntType>(parm._probabilities.size() - 1);
+            return static_cast<IntType>(last);
         } else {
             // WeightType is integral and sum(parm._probabilities)
             // would overflow.  Just use the easy solution.
-- 
2.43.0


From 544109e4b9bb1c3a502af147a7485e7f12cb3d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 23/68] fix: splitmix64: generate must store 32-bit values, as
 seed sequences do

---
 include/boost/random/splitmix64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/splitmix64.hpp b/include/boost/random/splitmix64.hpp
index 7e86305..99a1ae9 100644
--- a/include/boost/random/splitmix64.hpp
+++ b/include/boost/random/splitmix64.hpp
@@ -164,7 +164,7 @@ public:
     {
         while (first != last)
         {
-            *first++ = next();
+            *first++ = static_cast<std::uint32_t>(next());
         }
     }
 
-- 
2.43.0


From 0f6ec94a49cfec45fb0d82ce4fcf4b19f670e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 24/68] fix: muldivmod: a zero modulus stands for 2^64 and
 needs no normalization

---
 include/boost/random/detail/large_arithmetic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index 66f6b4e..6c3f197 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -36,7 +36,7 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
     const ::boost::uintmax_t mask = (::boost::uintmax_t(1) << bits) - 1;
     typedef ::boost::uint_t<bits>::fast digit_t;
 
-    int shift = std::numeric_limits< ::boost::uintmax_t>::digits - 1
+    int shift = (m == 0)? 0 : std::numeric_limits< ::boost::uintmax_t>::digits - 1
         - detail::integer_log2(m);
 
     a <<= shift;
-- 
2.43.0


From 1796bfab22e90962dd9ad207de68a59f5d8ddab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 25/68] fix: muldivmod: do not correct the quotient when the
 partial remainder is large

---
 include/boost/random/detail/large_arithmetic.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index 6c3f197..eb932cf 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -78,13 +78,14 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
 
         digit_t q = digit_t((product[i] == m_[1]) ? mask : temp / m_[1]);
 
-        ::boost::uintmax_t rem =
-            ((temp - ::boost::uintmax_t(q) * m_[1]) << bits) + product[i - 2];
+        ::boost::uintmax_t rem_high = temp - ::boost::uintmax_t(q) * m_[1];
+        ::boost::uintmax_t rem = (rem_high << bits) + product[i - 2];
 
         ::boost::uintmax_t diff = m_[0] * ::boost::uintmax_t(q);
 
         int error = 0;
-        if(diff > rem) {
+        // if rem_high has more than bits bits, the remainder exceeds diff
+        if((rem_high >> bits) == 0 && diff > rem) {
             if(diff - rem > m) {
                 error = 2;
             } else {
-- 
2.43.0


From 53ba8bbbb684d529b3d8db8e7eeba5fb8392d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 26/68] fix: mersenne_twister, lagged_fibonacci: do not fail
 when the state ends the stream

Skipping white space after the last word of the state sets failbit when the
stream ends there (LWG 415), although the state was read completely.
---
 include/boost/random/lagged_fibonacci.hpp | 4 ++--
 include/boost/random/mersenne_twister.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/lagged_fibonacci.hpp b/include/boost/random/lagged_fibonacci.hpp
index 0c93bae..446a2ef 100644
--- a/include/boost/random/lagged_fibonacci.hpp
+++ b/include/boost/random/lagged_fibonacci.hpp
@@ -154,9 +154,9 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, lagged_fibonacci_engine, f)
     {
-        is >> f.i >> std::ws;
+        is >> f.i;
         for(unsigned int j = 0; j < f.long_lag; ++j)
-            is >> f.x[j] >> std::ws;
+            is >> std::ws >> f.x[j];
         return is;
     }
 
diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index 5fefb28..ca48e91 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -232,7 +232,7 @@ public:
                mersenne_twister_engine& mt)
     {
         for(std::size_t j = 0; j < mt.state_size; ++j)
-            is >> mt.x[j] >> std::ws;
+            is >> std::ws >> mt.x[j];
         // MSVC (up to 7.1) and Borland (up to 5.64) don't handle the template
         // value parameter "n" available from the class template scope, so use
         // the static constant with the same value
-- 
2.43.0


From 4918376f42273147c982f44844a73b621575fcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 27/68] fix: mersenne_twister: jump ahead with words narrower
 than their type

reconstruct_state let bits move beyond the word size when the word type is
wider than w.
---
 include/boost/random/mersenne_twister.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index ca48e91..35b4a9f 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -477,6 +477,8 @@ private:
                 y1 = (y1 ^ a) << UIntType(1) | UIntType(1);
             else
                 y1 = y1 << UIntType(1);
+            // keep unknown bits from moving beyond the word size
+            y1 &= UIntType((UIntType(2) << (w - 1)) - 1);
             x[(j + 1) % n] = (y0 & upper_mask) | (y1 & lower_mask);
             y0 = y1;
         }
-- 
2.43.0


From 82e23f1841dab520a605e592a3ac4681de628716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 28/68] fix: seed_seq: generate the same words in wider
 destination types

The intermediate values were not reduced modulo 2^32 when the destination's
value type is wider than 32 bits.
---
 include/boost/random/seed_seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/seed_seq.hpp b/include/boost/random/seed_seq.hpp
index 60500e0..134f92f 100644
--- a/include/boost/random/seed_seq.hpp
+++ b/include/boost/random/seed_seq.hpp
@@ -87,7 +87,7 @@ public:
             value_type r2 = static_cast<value_type>(r1 +
                 ((k == 0) ? s :
                  (k <= s) ? k % n + v[k - 1] :
-                 (k % n)));
+                 (k % n))) & mask;
             *(first + (k+p)%n) = (*(first + (k+p)%n) + r1) & mask;
             *(first + (k+q)%n) = (*(first + (k+q)%n) + r2) & mask;
             *(first + k%n) = r2;
@@ -98,7 +98,7 @@ public:
                 & mask);
             r3 = r3 ^ (r3 >> 27);
             r3 = (r3 * 1566083941u) & mask;
-            value_type r4 = static_cast<value_type>(r3 - k%n);
+            value_type r4 = static_cast<value_type>(r3 - k%n) & mask;
             *(first + (k+p)%n) ^= r3;
             *(first + (k+q)%n) ^= r4;
             *(first + k%n) = r4;
-- 
2.43.0


From 6c46969ae9de801945f5e2bd59fe9bc0655a78b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 29/68] fix: uniform_01: a signed engine range may exceed its
 own type (P13)

---
 include/boost/random/uniform_01.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/uniform_01.hpp b/include/boost/random/uniform_01.hpp
index 37258f5..99611d5 100644
--- a/include/boost/random/uniform_01.hpp
+++ b/include/boost/random/uniform_01.hpp
@@ -22,6 +22,8 @@
 #include <boost/static_assert.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/ptr_helper.hpp>
+#include <boost/random/detail/signed_unsigned_tools.hpp>
+#include <boost/type_traits/is_integral.hpp>
 
 #include <boost/random/detail/disable_warnings.hpp>
 
@@ -77,6 +79,20 @@ public:
 
 namespace detail {
 
+// x - y for x >= y, without overflow for the signed built-in integers
+template<class T, bool is_native_integer = boost::is_integral<T>::value>
+struct uniform_01_subtract
+{
+  T operator()(const T& x, const T& y) const { return T(x - y); }
+};
+
+template<class T>
+struct uniform_01_subtract<T, true>
+{
+  typename subtract<T>::result_type operator()(T x, T y) const
+  { return subtract<T>()(x, y); }
+};
+
 template<class RealType>
 class new_uniform_01
 {
@@ -93,9 +109,9 @@ public:
     for (;;) {
       typedef typename Engine::result_type base_result;
       result_type factor = result_type(1) /
-              (result_type(base_result((eng.max)()-(eng.min)())) +
+              (result_type(uniform_01_subtract<base_result>()((eng.max)(), (eng.min)())) +
                result_type(std::numeric_limits<base_result>::is_integer ? 1 : 0));
-      result_type result = result_type(base_result(eng() - (eng.min)())) * factor;
+      result_type result = result_type(uniform_01_subtract<base_result>()(eng(), (eng.min)())) * factor;
       if (result < result_type(1))
         return result;
     }
@@ -135,7 +151,7 @@ public:
   explicit backward_compatible_uniform_01(typename traits::rvalue_type rng)
     : _rng(rng),
       _factor(result_type(1) /
-              (result_type((base().max)()-(base().min)()) +
+              (result_type(uniform_01_subtract<base_result>()((base().max)(), (base().min)())) +
                result_type(std::numeric_limits<base_result>::is_integer ? 1 : 0)))
   {
   }
@@ -149,7 +165,7 @@ public:
 
   result_type operator()() {
     for (;;) {
-      result_type result = result_type(base()() - (base().min)()) * _factor;
+      result_type result = result_type(uniform_01_subtract<base_result>()(base()(), (base().min)())) * _factor;
       if (result < result_type(1))
         return result;
     }
-- 
2.43.0


From fc7234f1b3b9609479b8828da956eb3d26dc93da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 30/68] fix: generate_canonical: do not lose the engine range
 to rounding (P13)

---
 include/boost/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index d849f53..7f299ed 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -33,7 +33,7 @@ RealType generate_canonical_impl(URNG& g, boost::true_type /*is_integral*/)
     using std::pow;
     typedef typename URNG::result_type base_result;
     std::size_t digits = std::numeric_limits<RealType>::digits;
-    RealType R = RealType((g.max)()) - RealType((g.min)()) + 1;
+    RealType R = RealType(detail::subtract<base_result>()((g.max)(), (g.min)())) + 1;
     RealType mult = R;
     RealType limit =
         pow(RealType(2),
-- 
2.43.0


From bc89263d304e8d63123e0d972ff44968dda2a788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 31/68] fix: generate_canonical: rounding can push the quotient
 above 1 (P13)

---
 include/boost/random/generate_canonical.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index 7f299ed..ede2789 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -81,10 +81,10 @@ RealType generate_canonical(URNG& g)
     RealType result = detail::generate_canonical_impl<RealType, bits>(
         g, boost::random::traits::is_integral<typename URNG::result_type>());
     BOOST_ASSERT(result >= 0);
-    BOOST_ASSERT(result <= 1);
-    if(result == 1) {
-        result -= std::numeric_limits<RealType>::epsilon() / 2;
-        BOOST_ASSERT(result != 1);
+    // both the sum and the product may have been rounded
+    if(result >= 1) {
+        result = 1 - std::numeric_limits<RealType>::epsilon() / 2;
+        BOOST_ASSERT(result < 1);
     }
     return result;
 }
-- 
2.43.0


From 5dd4259ee25028ce18456b4a1b6134ee4c8d941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 32/68] fix: extreme_value: log(0) is not a value of the
 distribution (P14)

---
 include/boost/random/extreme_value_distribution.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/extreme_value_distribution.hpp b/include/boost/random/extreme_value_distribution.hpp
index 419c3da..c78fb3f 100644
--- a/include/boost/random/extreme_value_distribution.hpp
+++ b/include/boost/random/extreme_value_distribution.hpp
@@ -96,7 +96,11 @@ public:
     RealType operator()(URNG& urng) const
     {
         using std::log;
-        return _a - log(-log(uniform_01<RealType>()(urng))) * _b;
+        RealType u;
+        do {
+            u = uniform_01<RealType>()(urng);
+        } while(u == 0);
+        return _a - log(-log(u)) * _b;
     }
 
     /**
-- 
2.43.0


From e31b65ec81cb9980d68b118d9beb2ba479ddee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 33/68] fix: bernoulli: a signed engine range may exceed its
 own type (P16)

---
 include/boost/random/bernoulli_distribution.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/bernoulli_distribution.hpp b/include/boost/random/bernoulli_distribution.hpp
index d66bae4..03dc7ed 100644
--- a/include/boost/random/bernoulli_distribution.hpp
+++ b/include/boost/random/bernoulli_distribution.hpp
@@ -21,6 +21,7 @@
 #include <boost/assert.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/operators.hpp>
+#include <boost/random/uniform_01.hpp>
 
 namespace boost {
 namespace random {
@@ -140,7 +141,11 @@ public:
         if(_p == RealType(0))
             return false;
         else
-            return RealType(eng() - (eng.min)()) <= _p * RealType((eng.max)()-(eng.min)());
+        {
+            typedef detail::uniform_01_subtract<typename Engine::result_type> subtract;
+            return RealType(subtract()(eng(), (eng.min)()))
+                <= _p * RealType(subtract()((eng.max)(), (eng.min)()));
+        }
     }
 
     /**
-- 
2.43.0


From 74ad14d0cbec84c53773b9fbb9fcb7050292b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 34/68] fix: geometric: results beyond the range of the result
 type (P14)

---
 include/boost/random/geometric_distribution.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/geometric_distribution.hpp b/include/boost/random/geometric_distribution.hpp
index f6692f1..58c857e 100644
--- a/include/boost/random/geometric_distribution.hpp
+++ b/include/boost/random/geometric_distribution.hpp
@@ -156,7 +156,11 @@ public:
         using std::log;
         using std::floor;
         RealType x = RealType(1) - boost::uniform_01<RealType>()(eng);
-        return IntType(floor(log(x) / _log_1mp));
+        RealType result = floor(log(x) / _log_1mp);
+        // a very small p gives values that IntType cannot represent
+        if(!(result < RealType((max)())))
+            return (max)();
+        return IntType(result);
     }
 
     /**
@@ -203,8 +207,8 @@ private:
 
     void init()
     {
-        using std::log;
-        _log_1mp = log(1 - _p);
+        using std::log1p;
+        _log_1mp = log1p(-_p);
     }
 
     RealType _p;
-- 
2.43.0


From 01414c421fbf23df20d8335c0f543ec68a1ec4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 35/68] fix: poisson: results beyond the range of the result
 type (P14)

---
 include/boost/random/poisson_distribution.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/poisson_distribution.hpp b/include/boost/random/poisson_distribution.hpp
index bccf0ef..35d57a3 100644
--- a/include/boost/random/poisson_distribution.hpp
+++ b/include/boost/random/poisson_distribution.hpp
@@ -265,6 +265,12 @@ private:
         }
     }
     
+    // a large mean gives values that IntType cannot represent
+    IntType to_result(RealType k) const
+    {
+        return k < RealType((max)()) ? static_cast<IntType>(k) : (max)();
+    }
+
     template<class URNG>
     IntType generate(URNG& urng) const
     {
@@ -277,7 +283,7 @@ private:
             RealType v = uniform_01<RealType>()(urng);
             if(v <= 0.86 * _u._ptrd.v_r) {
                 u = v / _u._ptrd.v_r - 0.43;
-                return static_cast<IntType>(floor(
+                return to_result(floor(
                     (2*_u._ptrd.a/(0.5-abs(u)) + _u._ptrd.b)*u + _mean + 0.445));
             }
 
@@ -305,7 +311,7 @@ private:
                                - log_sqrt_2pi
                                + k
                                - (1/12. - (1/360. - 1/(1260.*k*k))/(k*k))/k) {
-                    return static_cast<IntType>(k);
+                    return to_result(k);
                 }
             } else if(k >= 0) {
                 if(log(v) <= k*log(_mean)
-- 
2.43.0


From 963c2d5330ada60141dc52dc4f15d6ee5444b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 36/68] fix: binomial: nk overflows for the largest t (P28)

---
 include/boost/random/binomial_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index 1927e4e..06b3641 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -353,7 +353,7 @@ private:
                 RealType h = (m + 0.5)*log((m + 1)/(_u.btrd.r*nm))
                            + fc(m) + fc(_t - m);
 
-                IntType nk = _t - k + 1;
+                RealType nk = RealType(_t - k) + 1;
                 if(v <= h + (RealType(_t)+1)*log(static_cast<RealType>(nm)/nk)
                           + (k + 0.5)*log(nk*_u.btrd.r/(k+1))
                           - fc(k)
-- 
2.43.0


From 9e87c378c1c83ccf03556b176c21a23a888a66cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 37/68] fix: beta: both gamma values can be zero (P14)

---
 include/boost/random/beta_distribution.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/random/beta_distribution.hpp b/include/boost/random/beta_distribution.hpp
index 145bf97..6d330f6 100644
--- a/include/boost/random/beta_distribution.hpp
+++ b/include/boost/random/beta_distribution.hpp
@@ -18,6 +18,7 @@
 #include <boost/assert.hpp>
 #include <boost/random/detail/operators.hpp>
 #include <boost/random/gamma_distribution.hpp>
+#include <boost/random/uniform_01.hpp>
 
 namespace boost {
 namespace random {
@@ -103,6 +104,11 @@ public:
     {
         RealType a = gamma_distribution<RealType>(_alpha, RealType(1.0))(urng);
         RealType b = gamma_distribution<RealType>(_beta, RealType(1.0))(urng);
+        // Both values can underflow when alpha and beta are small.  Near zero
+        // the gamma densities are powers of x, and the larger value (by far)
+        // is a with this probability.
+        if(a + b == 0)
+            return uniform_01<RealType>()(urng) * (_alpha + _beta) < _alpha ? RealType(1) : RealType(0);
         return a / (a + b);
     }
 
-- 
2.43.0


From 909f1b69deb8c0275d68172eb77b669cb754bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 38/68] fix: fisher_f: both chi squared values can be zero
 (P14)

---
 include/boost/random/fisher_f_distribution.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/fisher_f_distribution.hpp b/include/boost/random/fisher_f_distribution.hpp
index cdf14da..8c7b1ee 100644
--- a/include/boost/random/fisher_f_distribution.hpp
+++ b/include/boost/random/fisher_f_distribution.hpp
@@ -19,6 +19,7 @@
 #include <boost/limits.hpp>
 #include <boost/random/detail/operators.hpp>
 #include <boost/random/chi_squared_distribution.hpp>
+#include <boost/random/uniform_01.hpp>
 
 namespace boost {
 namespace random {
@@ -100,7 +101,15 @@ public:
     template<class URNG>
     RealType operator()(URNG& urng)
     {
-        return (_impl_m(urng) * n()) / (_impl_n(urng) * m());
+        RealType x = _impl_m(urng) * n();
+        RealType y = _impl_n(urng) * m();
+        // Both values can underflow when m and n are small.  Near zero
+        // the densities are powers of x, and the larger value (by far)
+        // is x with this probability.
+        if(x == 0 && y == 0)
+            return uniform_01<RealType>()(urng) * (m() + n()) < m() ?
+                std::numeric_limits<RealType>::infinity() : RealType(0);
+        return x / y;
     }
 
     /**
-- 
2.43.0


From 9a9551d47d12e18003f61249a53ca9dd4ee48934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 39/68] fix: student_t: both the normal and the chi squared
 value can be zero (P14)

---
 include/boost/random/student_t_distribution.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/student_t_distribution.hpp b/include/boost/random/student_t_distribution.hpp
index e28b0e3..2d3b701 100644
--- a/include/boost/random/student_t_distribution.hpp
+++ b/include/boost/random/student_t_distribution.hpp
@@ -96,7 +96,9 @@ public:
     RealType operator()(URNG& urng)
     {
         using std::sqrt;
-        return _normal(urng) / sqrt(_chi_squared(urng) / n());
+        RealType x = _normal(urng);
+        RealType y = sqrt(_chi_squared(urng) / n());
+        return x == 0 ? x : x / y;
     }
 
     /**
-- 
2.43.0


From cb1ca008220f0e5fc6c5e4bf723852903f52dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 40/68] fix: binomial: compute (1-p)^t without losing p to
 rounding (P16)

---
 include/boost/random/binomial_distribution.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index 06b3641..3fa7bca 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -270,7 +270,8 @@ private:
     void init()
     {
         using std::sqrt;
-        using std::pow;
+        using std::exp;
+        using std::log1p;
 
         RealType p = (0.5 < _p)? (1 - _p) : _p;
         IntType t = _t;
@@ -278,7 +279,8 @@ private:
         m = static_cast<IntType>((RealType(t)+1)*p);
 
         if(use_inversion()) {
-            _u.q_n = pow((1 - p), static_cast<RealType>(t));
+            // 1 - p itself is too inaccurate for small p and large t
+            _u.q_n = exp(static_cast<RealType>(t) * log1p(-p));
         } else {
             _u.btrd.r = p/(1-p);
             _u.btrd.nr = (RealType(t)+1)*_u.btrd.r;
-- 
2.43.0


From c07f4d979b6b67dc469e09f54bbd9f87b3184c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 41/68] fix: discrete_distribution: an empty range gives the
 default parameters, as documented

---
 include/boost/random/discrete_distribution.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index 6cef998..d0e2c17 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -335,6 +335,9 @@ public:
         {}
         void normalize()
         {
+            if(_probabilities.empty()) {
+                _probabilities.push_back(static_cast<WeightType>(1));
+            }
             impl_type::normalize(_probabilities);
         }
         std::vector<WeightType> _probabilities;
-- 
2.43.0


From 08603887063eabd0a08b536926c8282b564caecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 42/68] fix: discrete_distribution: count the weights in a type
 that can hold their number

---
 include/boost/random/discrete_distribution.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index d0e2c17..a8583e8 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -48,8 +48,8 @@ struct integer_alias_table {
     template<class Iter>
     WeightType init_average(Iter begin, Iter end) {
         WeightType weight_average = 0;
-        IntType excess = 0;
-        IntType n = 0;
+        std::size_t excess = 0;
+        std::size_t n = 0;
         // weight_average * n + excess == current partial sum
         // This is a bit messy, but it's guaranteed not to overflow
         for(Iter iter = begin; iter != end; ++iter) {
@@ -74,9 +74,9 @@ struct integer_alias_table {
                 }
             }
         }
-        _alias_table.resize(static_cast<std::size_t>(n));
+        _alias_table.resize(n);
         _average = weight_average;
-        _excess = excess;
+        _excess = static_cast<IntType>(excess);
         return weight_average;
     }
     void init_empty()
-- 
2.43.0


From 378a213a96f37d15b24a3bc427e56c48d5ab94f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 43/68] fix: discrete_distribution: round-off never gives a
 zero weight a share of the table

---
 include/boost/random/discrete_distribution.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index a8583e8..813e63e 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -614,8 +614,16 @@ private:
             }
         }
         for(; b_iter != b_end; ++b_iter) {
-            _impl._alias_table[static_cast<std::size_t>(b_iter->second)].first =
-                _impl.get_weight(b_iter->second);
+            // Round-off error can leave elements of less than average weight
+            // behind.  If much is missing, it must not be given to the element
+            // itself, whose weight may be zero.
+            if(above_average.empty() || b_iter->first >= normalized_average / 2) {
+                _impl._alias_table[static_cast<std::size_t>(b_iter->second)].first =
+                    _impl.get_weight(b_iter->second);
+            } else {
+                _impl._alias_table[static_cast<std::size_t>(b_iter->second)] =
+                    std::make_pair(b_iter->first, above_average.back().second);
+            }
         }
         for(; a_iter != a_end; ++a_iter) {
             _impl._alias_table[static_cast<std::size_t>(a_iter->second)].first =
-- 
2.43.0


From bca6adcd2b653ad811ab06e98182689e1825083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 44/68] fix: hyperexponential_distribution: the last
 probability keeps its own value

---
 include/boost/random/hyperexponential_distribution.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/boost/random/hyperexponential_distribution.hpp b/include/boost/random/hyperexponential_distribution.hpp
index 624333e..d285203 100644
--- a/include/boost/random/hyperexponential_distribution.hpp
+++ b/include/boost/random/hyperexponential_distribution.hpp
@@ -54,17 +54,13 @@ std::vector<T>& normalize(std::vector<T>& v)
     }
 
     const T sum = std::accumulate(v.begin(), v.end(), static_cast<T>(0));
-    T final_sum = 0;
 
-    const typename std::vector<T>::iterator end = --v.end();
     for (typename std::vector<T>::iterator it = v.begin();
-         it != end;
+         it != v.end();
          ++it)
     {
         *it /= sum;
-        final_sum += *it;
     }
-    *end = 1-final_sum; // avoids round off errors thus ensuring the probabilities really sum to 1
 
     return v;
 }
-- 
2.43.0


From bd48fd1e15c0cc6e79b23838e557a38c5872007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 45/68] fix: piecewise distributions: the parameter type and
 the distribution use the same intervals

---
 .../random/piecewise_constant_distribution.hpp    | 15 ++++-----------
 .../random/piecewise_linear_distribution.hpp      |  2 +-
 2 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index cd1077c..c0d17bd 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -150,7 +150,7 @@ public:
         param_type(std::size_t nw, RealType xmin, RealType xmax, F f)
         {
             std::size_t n = (nw == 0) ? 1 : nw;
-            double delta = (xmax - xmin) / n;
+            RealType delta = (xmax - xmin) / n;
             BOOST_ASSERT(delta > 0);
             for(std::size_t k = 0; k < n; ++k) {
                 _weights.push_back(f(xmin + k*delta + delta/2));
@@ -340,15 +340,8 @@ public:
                                     RealType xmin,
                                     RealType xmax,
                                     F f)
-      : _bins(nw, xmin, xmax, f)
     {
-        if(nw == 0) { nw = 1; }
-        RealType delta = (xmax - xmin) / nw;
-        _intervals.reserve(nw + 1);
-        for(std::size_t i = 0; i < nw; ++i) {
-            _intervals.push_back(xmin + i * delta);
-        }
-        _intervals.push_back(xmax);
+        param(param_type(nw, xmin, xmax, f));
     }
     /**
      * Constructs a piecewise_constant_distribution from its parameters.
@@ -412,8 +405,8 @@ public:
     {
         std::vector<RealType> new_intervals(parm._intervals);
         typedef discrete_distribution<std::size_t, WeightType> bins_type;
-        typename bins_type::param_type bins_param(parm._weights);
-        _bins.param(bins_param);
+        bins_type new_bins(parm._weights);
+        _bins = new_bins;
         _intervals.swap(new_intervals);
     }
     
diff --git a/include/boost/random/piecewise_linear_distribution.hpp b/include/boost/random/piecewise_linear_distribution.hpp
index 541c57f..e4debb1 100644
--- a/include/boost/random/piecewise_linear_distribution.hpp
+++ b/include/boost/random/piecewise_linear_distribution.hpp
@@ -158,7 +158,7 @@ public:
         param_type(std::size_t nw, RealType xmin, RealType xmax, F f)
         {
             std::size_t n = (nw == 0) ? 1 : nw;
-            double delta = (xmax - xmin) / n;
+            RealType delta = (xmax - xmin) / n;
             BOOST_ASSERT(delta > 0);
             for(std::size_t k = 0; k < n; ++k) {
                 _weights.push_back(f(xmin + k*delta));
-- 
2.43.0


From 68556e34bf25e70bcc23465343d3897fe1ecc41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 46/68] fix: piecewise_constant_distribution: densities() with
 integer weights

---
 include/boost/random/piecewise_constant_distribution.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index c0d17bd..563937e 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -386,11 +386,7 @@ public:
      */
     std::vector<RealType> densities() const
     {
-        std::vector<RealType> result(_bins.probabilities());
-        for(std::size_t i = 0; i < result.size(); ++i) {
-            result[i] /= (_intervals[i+1] - _intervals[i]);
-        }
-        return(result);
+        return param().densities();
     }
     /**  Returns a vector containing the interval boundaries. */
     std::vector<RealType> intervals() const { return _intervals; }
-- 
2.43.0


From 89d5e1a69fb48ff83f4a7739e018f0462975fd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 47/68] fix: piecewise_constant_distribution: every constructor
 builds the same table from the same weights

---
 include/boost/random/piecewise_constant_distribution.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index 563937e..4c29162 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -268,8 +268,7 @@ public:
                 actual_weights.push_back(*first_weight++);
             }
             typedef discrete_distribution<std::size_t, WeightType> bins_type;
-            typename bins_type::param_type bins_param(actual_weights);
-            _bins.param(bins_param);
+            _bins = bins_type(actual_weights);
         }
     }
 #ifndef BOOST_NO_CXX11_HDR_INITIALIZER_LIST
@@ -301,8 +300,7 @@ public:
                 actual_weights.push_back(f(midpoint));
             }
             typedef discrete_distribution<std::size_t, WeightType> bins_type;
-            typename bins_type::param_type bins_param(actual_weights);
-            _bins.param(bins_param);
+            _bins = bins_type(actual_weights);
         }
     }
 #endif
-- 
2.43.0


From ce0351f027a88ddd9439951eeb852868c9d73165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 48/68] fix: discrete_distribution forgets the old table when
 it is given parameters

---
 include/boost/random/discrete_distribution.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index 813e63e..878fa91 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -74,6 +74,7 @@ struct integer_alias_table {
                 }
             }
         }
+        _alias_table.clear();
         _alias_table.resize(n);
         _average = weight_average;
         _excess = static_cast<IntType>(excess);
@@ -144,6 +145,7 @@ struct real_alias_table {
         std::size_t size = std::distance(first, last);
         WeightType weight_sum =
             std::accumulate(first, last, static_cast<WeightType>(0));
+        _alias_table.clear();
         _alias_table.resize(size);
         return weight_sum / size;
     }
-- 
2.43.0


From 0a701455a35137cf2f23e935d812f72357b762c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 49/68] fix: niederreiter_base2 keeps the leading term of the
 last polynomial power

---
 include/boost/random/niederreiter_base2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/niederreiter_base2.hpp b/include/boost/random/niederreiter_base2.hpp
index 5f05850..d519839 100644
--- a/include/boost/random/niederreiter_base2.hpp
+++ b/include/boost/random/niederreiter_base2.hpp
@@ -124,7 +124,7 @@ public:
       }
 
       const unsigned degree = qrng_detail::msb(poly); // integer log2(poly)
-      const unsigned space_required = degree * ((bit_count / degree) + 1); // ~ degree + bit_count
+      const unsigned space_required = degree * ((bit_count / degree) + 1) + 1; // ~ degree + bit_count
 
       v.resize(degree + bit_count - 1);
 
-- 
2.43.0


From 6f33befd1f2c5893c1aeb856d41d7f242bd704b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 50/68] fix: sobol does not write past its table when the
 polynomial's degree exceeds the bit count

---
 include/boost/random/sobol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/sobol.hpp b/include/boost/random/sobol.hpp
index 042b3ba..128c5be 100644
--- a/include/boost/random/sobol.hpp
+++ b/include/boost/random/sobol.hpp
@@ -65,7 +65,7 @@ public:
       const unsigned degree = qrng_detail::msb(poly); // integer log2(poly)
 
       // set initial values of m from table
-      for (unsigned k = 0; k != degree; ++k)
+      for (unsigned k = 0; k != degree && k != bit_count; ++k)
         cj[dimension*k + dim] = SobolTables::minit(dim-1, k);
 
       // Calculate remaining elements for this dimension,
-- 
2.43.0


From 1b08cdec6794aaa6d7c024d4c4a378a538a24f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 51/68] fix: quasi-random engine restored with another
 dimension recomputes its state

---
 include/boost/random/detail/qrng_base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 5eeacfb..86bf88c 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -159,6 +159,7 @@ public:
       {
         s.lattice.resize(dim);
         s.quasi_state.resize(dim);
+        s.derived().seed(); // the state is of no use for the new dimension
       }
       // Fast-forward to the correct state
       s.derived().seed(seed);
-- 
2.43.0


From 78ad695385dd5039e7f2016617100381e03dac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 52/68] fix: quasi-random engine's discard of the largest count
 does not wrap around

---
 include/boost/random/detail/qrng_base.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 86bf88c..75a7962 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -111,14 +111,16 @@ public:
     boost::uintmax_t vec_n = z / dimension_value;
     std::size_t carry = curr_elem + (z % dimension_value);
 
-    vec_n += carry / dimension_value;
+    const std::size_t carry_n = carry / dimension_value;
     carry  = carry % dimension_value;
 
     // Avoid overdiscarding by branchlessly correcting the triple
     // (D, S + 1, 0) to (D, S, D) (see equality operator)
-    const bool corr = (!carry) & static_cast<bool>(vec_n);
+    const bool corr = (!carry) & (static_cast<bool>(vec_n) | static_cast<bool>(carry_n));
 
-    // Discards vec_n (with correction) consecutive s-dimensional vectors
+    // Discards vec_n (with correction) consecutive s-dimensional vectors;
+    // the sum cannot exceed its type, as a carry of a single element is corrected
+    vec_n += carry_n;
     discard_vector(vec_n - static_cast<boost::uintmax_t>(corr));
 
 #ifdef BOOST_MSVC
-- 
2.43.0


From d0c8a418347277b2d82b26858dc7ed8e9a160235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 53/68] fix: faure does not overflow a signed sequence size
 type

---
 include/boost/random/detail/qrng_base.hpp | 4 ++--
 include/boost/random/faure.hpp            | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 75a7962..6898116 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -225,9 +225,9 @@ private:
 
   result_type next_state()
   {
-    size_type new_seq = seq_count;
-    if (BOOST_LIKELY(++new_seq > seq_count))
+    if (BOOST_LIKELY(seq_count < (std::numeric_limits<size_type>::max)()))
     {
+      const size_type new_seq = static_cast<size_type>(seq_count + 1);
       derived().compute_seq(new_seq);
       reset_seq(new_seq);
       return load_cached();
diff --git a/include/boost/random/faure.hpp b/include/boost/random/faure.hpp
index 4301c30..b44749a 100644
--- a/include/boost/random/faure.hpp
+++ b/include/boost/random/faure.hpp
@@ -94,7 +94,8 @@ inline T integer_pow(T base, T e)
     if (e & static_cast<T>(1))
       result *= base;
     e >>= 1;
-    base *= base;
+    if (e)
+      base *= base;
   }
   return result;
 }
-- 
2.43.0


From 053c27e9e999ca9f15574c624c057698a1a7c0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 54/68] fix: linear_feedback_shift: the old class can be
 constructed from a seed

---
 include/boost/random/linear_feedback_shift.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index 19d5779..236a904 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -201,10 +201,10 @@ public:
     linear_feedback_shift() {}
     BOOST_RANDOM_DETAIL_SEED_SEQ_CONSTRUCTOR(linear_feedback_shift,
         SeedSeq, seq)
-    { seed(seq); }
+    { this->seed(seq); }
     BOOST_RANDOM_DETAIL_ARITHMETIC_CONSTRUCTOR(linear_feedback_shift,
         UIntType, val)
-    { seed(val); }
+    { this->seed(val); }
     template<class It>
     linear_feedback_shift(It& first, It last) : base_type(first, last) {}
 };
-- 
2.43.0


From d1104c9ad81c95bf453c6250f2c0915f61bb5e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 55/68] fix: copying a changeable object of the old adaptor
 classes copies it

---
 include/boost/random/additive_combine.hpp | 6 +++++-
 include/boost/random/discard_block.hpp    | 6 +++++-
 include/boost/random/shuffle_output.hpp   | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/additive_combine.hpp b/include/boost/random/additive_combine.hpp
index ba045ad..18b84fb 100644
--- a/include/boost/random/additive_combine.hpp
+++ b/include/boost/random/additive_combine.hpp
@@ -21,6 +21,8 @@
 #include <algorithm> // for std::min and std::max
 #include <boost/config.hpp>
 #include <boost/cstdint.hpp>
+#include <boost/utility/enable_if.hpp>
+#include <boost/type_traits/is_convertible.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/operators.hpp>
 #include <boost/random/detail/seed.hpp>
@@ -252,7 +254,9 @@ public:
     typedef typename base_t::result_type result_type;
     additive_combine() {}
     template<class T>
-    additive_combine(T& arg) : base_t(arg) {}
+    additive_combine(T& arg, typename boost::disable_if<
+        boost::is_convertible<T*, const additive_combine*> >::type* = 0)
+      : base_t(arg) {}
     template<class T>
     additive_combine(const T& arg) : base_t(arg) {}
     template<class It>
diff --git a/include/boost/random/discard_block.hpp b/include/boost/random/discard_block.hpp
index b9b09ab..190cadb 100644
--- a/include/boost/random/discard_block.hpp
+++ b/include/boost/random/discard_block.hpp
@@ -22,6 +22,8 @@
 #include <boost/cstdint.hpp>
 #include <boost/limits.hpp>
 #include <boost/static_assert.hpp>
+#include <boost/utility/enable_if.hpp>
+#include <boost/type_traits/is_convertible.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/seed.hpp>
 #include <boost/random/detail/seed_impl.hpp>
@@ -204,7 +206,9 @@ public:
     typedef typename base_t::result_type result_type;
     discard_block() {}
     template<class T>
-    discard_block(T& arg) : base_t(arg) {}
+    discard_block(T& arg, typename boost::disable_if<
+        boost::is_convertible<T*, const discard_block*> >::type* = 0)
+      : base_t(arg) {}
     template<class T>
     discard_block(const T& arg) : base_t(arg) {}
     template<class It>
diff --git a/include/boost/random/shuffle_output.hpp b/include/boost/random/shuffle_output.hpp
index 478e102..24e3c4c 100644
--- a/include/boost/random/shuffle_output.hpp
+++ b/include/boost/random/shuffle_output.hpp
@@ -16,6 +16,8 @@
 #ifndef BOOST_RANDOM_SHUFFLE_OUTPUT_HPP
 #define BOOST_RANDOM_SHUFFLE_OUTPUT_HPP
 
+#include <boost/utility/enable_if.hpp>
+#include <boost/type_traits/is_convertible.hpp>
 #include <boost/random/shuffle_order.hpp>
 
 namespace boost {
@@ -32,7 +34,9 @@ public:
     typedef typename base_t::result_type result_type;
     shuffle_output() {}
     template<class T>
-    explicit shuffle_output(T& arg) : base_t(arg) {}
+    explicit shuffle_output(T& arg, typename boost::disable_if<
+        boost::is_convertible<T*, const shuffle_output*> >::type* = 0)
+      : base_t(arg) {}
     template<class T>
     explicit shuffle_output(const T& arg) : base_t(arg) {}
     template<class It>
-- 
2.43.0


From 9f907b8ce43123d8fe221a6c115178e9ff0c1e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 56/68] fix: the old geometric_distribution does not overflow
 its result type

---
 include/boost/random/geometric_distribution.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/geometric_distribution.hpp b/include/boost/random/geometric_distribution.hpp
index 58c857e..30646e5 100644
--- a/include/boost/random/geometric_distribution.hpp
+++ b/include/boost/random/geometric_distribution.hpp
@@ -241,7 +241,12 @@ public:
     void reset() {}
 
     template<class Engine>
-    IntType operator()(Engine& eng) const { return _impl(eng) + IntType(1); }
+    IntType operator()(Engine& eng) const
+    {
+        IntType result = _impl(eng);
+        // the largest value stands for those that IntType cannot represent
+        return result < (_impl.max)() ? IntType(result + IntType(1)) : result;
+    }
 
     BOOST_RANDOM_DETAIL_OSTREAM_OPERATOR(os, geometric_distribution, gd)
     {
-- 
2.43.0


From 153566ca8891afa67204902c6f136154af0de1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 57/68] fix: mixmax: malformed text must set failbit, not trip
 an assertion or use uninitialised words

---
 include/boost/random/mixmax.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/mixmax.hpp b/include/boost/random/mixmax.hpp
index aebdfa1..2455be3 100644
--- a/include/boost/random/mixmax.hpp
+++ b/include/boost/random/mixmax.hpp
@@ -136,16 +136,16 @@ public: // SEEDING FUNCTIONS
     operator>> (std::basic_istream<CharT,Traits> &in, mixmax_engine& me){
         // will set std::ios::failbit if the input format is not right
         boost::array<boost::uint64_t, Ndim> vec;
-        boost::uint64_t sum=0, savedsum=0, counter=0;
-        in >> counter >> std::ws;
-        BOOST_ASSERT(counter==Ndim);
+        boost::uint64_t sum=0, savedsum=0, counter=0, ndim=0;
+        vec.fill(0);
+        in >> ndim >> std::ws;
         in >> counter >> std::ws;
         in >> savedsum >> std::ws;
         for(int j=0;j<Ndim;j++) {
         in >> std::ws >> vec[j] ;
         sum=me.MOD_MERSENNE(sum+vec[j]);
     }
-    if (sum == savedsum && counter>0 && counter<=Ndim){
+    if (in && ndim == Ndim && sum == savedsum && counter>0 && counter<=Ndim){
         me.S.V=vec; me.S.counter = counter; me.S.sumtot=savedsum;
     }else{
         in.setstate(std::ios::failbit);
-- 
2.43.0


From cdd91c9aff035bd5e74e54cf0d1f891f1b209f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 58/68] fix: const_mod: 16-bit moduli of 2^16 overflow int

---
 include/boost/random/detail/const_mod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/detail/const_mod.hpp b/include/boost/random/detail/const_mod.hpp
index e0a43ab..949ff7b 100644
--- a/include/boost/random/detail/const_mod.hpp
+++ b/include/boost/random/detail/const_mod.hpp
@@ -57,7 +57,7 @@ public:
   static IntType mult(IntType a, IntType x)
   {
     if(((unsigned_m() - 1) & unsigned_m()) == 0)
-      return unsigned_type(a) * unsigned_type(x) & (unsigned_m() - 1);
+      return 1u * unsigned_type(a) * unsigned_type(x) & (unsigned_m() - 1);
     else if(a == 0)
       return 0;
     else if(a == 1)
@@ -73,7 +73,7 @@ public:
   static IntType mult_add(IntType a, IntType x, IntType c)
   {
     if(((unsigned_m() - 1) & unsigned_m()) == 0)
-      return (unsigned_type(a) * unsigned_type(x) + unsigned_type(c)) & (unsigned_m() - 1);
+      return (1u * unsigned_type(a) * unsigned_type(x) + unsigned_type(c)) & (unsigned_m() - 1);
     else if(a == 0)
       return c;
     else if(m <= (traits::const_max-c)/a) {  // i.e. a*m+c <= max
-- 
2.43.0


From 4c9e0e0637a5325836c66c43236165717445d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 59/68] fix: shuffle_order_engine: a failed read leaves an
 index outside the table

---
 include/boost/random/shuffle_order.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/shuffle_order.hpp b/include/boost/random/shuffle_order.hpp
index 0dc6b26..936f62f 100644
--- a/include/boost/random/shuffle_order.hpp
+++ b/include/boost/random/shuffle_order.hpp
@@ -192,10 +192,15 @@ public:
     /** Reads a @c shuffle_order_engine from a @c std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, shuffle_order_engine, s)
     {
-        is >> s._rng;
+        // y selects an element of v, so it must always be in range.
+        shuffle_order_engine tmp(s);
+        is >> tmp._rng;
         for(std::size_t i = 0; i < k; ++i)
-            is >> std::ws >> s.v[i];
-        is >> std::ws >> s.y;
+            is >> std::ws >> tmp.v[i];
+        is >> std::ws >> tmp.y;
+        if(is) {
+            s = tmp;
+        }
         return is;
     }
 
-- 
2.43.0


From b8e94291918d0d096085ee88bc94247bd8530a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 60/68] fix: binomial_distribution: the largest result
 overflows its type

---
 include/boost/random/binomial_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index 3fa7bca..97da7fb 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -260,7 +260,7 @@ private:
     {
         if(k < 10) return detail::binomial_table<RealType>::table[k];
         else {
-            RealType ikp1 = RealType(1) / (k + 1);
+            RealType ikp1 = RealType(1) / (RealType(k) + 1);
             return (RealType(1)/12
                  - (RealType(1)/360
                  - (RealType(1)/1260)*(ikp1*ikp1))*(ikp1*ikp1))*ikp1;
@@ -357,7 +357,7 @@ private:
 
                 RealType nk = RealType(_t - k) + 1;
                 if(v <= h + (RealType(_t)+1)*log(static_cast<RealType>(nm)/nk)
-                          + (k + 0.5)*log(nk*_u.btrd.r/(k+1))
+                          + (k + 0.5)*log(nk*_u.btrd.r/(RealType(k)+1))
                           - fc(k)
                           - fc(_t - k))
                 {
-- 
2.43.0


From 42274febae8ecc6f4c3cccc88146dcc66d0d7f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 61/68] fix: polynomial: add_shifted_inplace touches a digit
 past the end (mersenne_twister discard)

---
 include/boost/random/detail/polynomial.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/polynomial.hpp b/include/boost/random/detail/polynomial.hpp
index a8c4b26..3eee6ce 100644
--- a/include/boost/random/detail/polynomial.hpp
+++ b/include/boost/random/detail/polynomial.hpp
@@ -50,7 +50,11 @@ public:
             output[i] ^= (tmp << shift) | (prev >> (bits-shift));
             prev = tmp;
         }
-        output[size] ^= (prev >> (bits-shift));
+        // output[size] may be past the end if nothing is shifted into it
+        const digit_t carry = prev >> (bits-shift);
+        if(carry != 0) {
+            output[size] ^= carry;
+        }
     }
 
     static void multiply_simple(std::size_t size, const digit_t * lhs,
-- 
2.43.0


From bff35695cd45f4c2fdb590293677916ed826eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 62/68] fix: uniform_int_distribution: the addition overflows
 for checked types before it is rejected

---
 include/boost/random/uniform_int_distribution.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/boost/random/uniform_int_distribution.hpp b/include/boost/random/uniform_int_distribution.hpp
index 6acff25..0bf247d 100644
--- a/include/boost/random/uniform_int_distribution.hpp
+++ b/include/boost/random/uniform_int_distribution.hpp
@@ -173,16 +173,12 @@ T generate_uniform_int(
           continue;
         }
         result_increment *= mult;
-        // unsigned integers are guaranteed to wrap on overflow.
-        result += result_increment;
-        if(result < result_increment) {
-          // The addition overflowed.  Reject.
-          continue;
-        }
-        if(result > range) {
-          // Too big.  Reject.
+        if(result_increment > range - result) {
+          // The sum would be too big.  Reject.  Checked types throw
+          // on overflow, so this has to come before the addition.
           continue;
         }
+        result += result_increment;
         return random::detail::add<range_type, result_type>()(result, min_value);
       }
     } else {                   // brange > range
-- 
2.43.0


From 3561771b9a84935c8c3fb4885f76e93b9d753bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 63/68] fix: uniform_real_distribution: multiprecision integer
 engines were taken for real ones

---
 include/boost/random/uniform_real_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/uniform_real_distribution.hpp b/include/boost/random/uniform_real_distribution.hpp
index 9eab9f4..db496aa 100644
--- a/include/boost/random/uniform_real_distribution.hpp
+++ b/include/boost/random/uniform_real_distribution.hpp
@@ -23,7 +23,7 @@
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/operators.hpp>
 #include <boost/random/detail/signed_unsigned_tools.hpp>
-#include <boost/type_traits/is_integral.hpp>
+#include <boost/random/traits.hpp>
 
 namespace boost {
 namespace random {
@@ -69,7 +69,7 @@ inline T generate_uniform_real(Engine& eng, T min_value, T max_value)
         return 2 * generate_uniform_real(eng, T(min_value / 2), T(max_value / 2));
     typedef typename Engine::result_type base_result;
     return generate_uniform_real(eng, min_value, max_value,
-        boost::is_integral<base_result>());
+        boost::random::traits::is_integral<base_result>());
 }
 
 }
-- 
2.43.0


From 26f96a3e7093d5d6ba48c4cd8f8e60bfb0ab3483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 64/68] fix: generate_canonical: the digits of decimal types
 were counted as bits

---
 include/boost/random/generate_canonical.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index ede2789..7d31048 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -27,12 +27,23 @@ namespace random {
 
 namespace detail {
 
+// The number of bits that hold any significand of RealType.
+template<class RealType>
+std::size_t binary_digits()
+{
+    typedef std::numeric_limits<RealType> limits;
+    // 1000/301 > log2(10)
+    return limits::radix == 10 ?
+        static_cast<std::size_t>(limits::digits) * 1000 / 301 + 1 :
+        static_cast<std::size_t>(limits::digits);
+}
+
 template<class RealType, std::size_t bits, class URNG>
 RealType generate_canonical_impl(URNG& g, boost::true_type /*is_integral*/)
 {
     using std::pow;
     typedef typename URNG::result_type base_result;
-    std::size_t digits = std::numeric_limits<RealType>::digits;
+    std::size_t digits = detail::binary_digits<RealType>();
     RealType R = RealType(detail::subtract<base_result>()((g.max)(), (g.min)())) + 1;
     RealType mult = R;
     RealType limit =
@@ -54,7 +65,7 @@ RealType generate_canonical_impl(URNG& g, boost::false_type /*is_integral*/)
     using std::floor;
     BOOST_ASSERT((g.min)() == 0);
     BOOST_ASSERT((g.max)() == 1);
-    std::size_t digits = std::numeric_limits<RealType>::digits;
+    std::size_t digits = detail::binary_digits<RealType>();
     std::size_t engine_bits = detail::generator_bits<URNG>::value();
     std::size_t b = (std::min)(bits, digits);
     RealType R = pow(RealType(2), RealType(engine_bits));
-- 
2.43.0


From 3748ae8df75fd2b4ffe540f58073d5ad326294b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 65/68] fix: independent_bits_engine: more steps than bits for
 an engine with three values

---
 include/boost/random/independent_bits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/independent_bits.hpp b/include/boost/random/independent_bits.hpp
index 72a8ed7..ff59d20 100644
--- a/include/boost/random/independent_bits.hpp
+++ b/include/boost/random/independent_bits.hpp
@@ -150,7 +150,8 @@ public:
         base_unsigned y0, y1;
         base_unsigned y0_mask, y1_mask;
         calc_params(n, range, w0, n0, y0, y1, y0_mask, y1_mask);
-        if(base_unsigned(range - y0 + 1) > y0 / n) {
+        // each step has to produce at least one bit.
+        if(n < w && base_unsigned(range - y0 + 1) > y0 / n) {
             // increment n and try again.
             ++n;
             calc_params(n, range, w0, n0, y0, y1, y0_mask, y1_mask);
-- 
2.43.0


From 434531b80c9c2f73075be45a38c7bf3f183ce03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 66/68] fix: generate: checked multiprecision types throw for
 values above 32 bits

---
 include/boost/random/detail/seed_impl.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/boost/random/detail/seed_impl.hpp b/include/boost/random/detail/seed_impl.hpp
index dcb7cc6..0a185ed 100644
--- a/include/boost/random/detail/seed_impl.hpp
+++ b/include/boost/random/detail/seed_impl.hpp
@@ -139,12 +139,14 @@ void generate_from_int(Engine& eng, Iter begin, Iter end)
     boost::uint_least32_t saved_bits = 0;
     unsigned_type range = boost::random::detail::subtract<IntType>()((eng.max)(), (eng.min)());
 
+    // Checked types throw on overflow, so nothing here may wrap around.
+    const bool full = range == (std::numeric_limits<unsigned_type>::max)();
     int bits =
-        (range == (std::numeric_limits<unsigned_type>::max)()) ?
+        full ?
             std::numeric_limits<unsigned_type>::digits :
             detail::integer_log2(range + 1);
 
-    {
+    if(!full) {
         int discarded_bits = detail::integer_log2(bits);
         unsigned_type excess = (range + 1) >> (bits - discarded_bits);
         if(excess != 0) {
@@ -153,8 +155,9 @@ void generate_from_int(Engine& eng, Iter begin, Iter end)
         }
     }
 
-    unsigned_type mask = (static_cast<unsigned_type>(2) << (bits - 1)) - 1;
-    unsigned_type limit = ((range + 1) & ~mask) - 1;
+    unsigned_type mask = static_cast<unsigned_type>(1) << (bits - 1);
+    mask |= mask - 1;
+    unsigned_type limit = full ? range : unsigned_type(((range + 1) & ~mask) - 1);
 
     while(true) {
         unsigned_type val;
@@ -168,7 +171,7 @@ void generate_from_int(Engine& eng, Iter begin, Iter end)
             if(begin == end) return;
         } else if(available_bits % 32 == 0) {
             for(int i = 0; i < available_bits / 32; ++i) {
-                boost::uint_least32_t word = boost::uint_least32_t(val) & 0xFFFFFFFFu;
+                boost::uint_least32_t word = boost::uint_least32_t(val & 0xFFFFFFFFu);
                 int suppress_warning = (bits >= 32);
                 BOOST_ASSERT(suppress_warning == 1);
                 val >>= (32 * suppress_warning);
@@ -180,7 +183,7 @@ void generate_from_int(Engine& eng, Iter begin, Iter end)
             remaining_bits += bits;
         } else {
             if(bits < 32 || remaining_bits != 0) {
-                boost::uint_least32_t extra_bits = boost::uint_least32_t(val) & ((boost::uint_least32_t(1) << (32 - remaining_bits)) - 1);
+                boost::uint_least32_t extra_bits = boost::uint_least32_t(val & ((boost::uint_least32_t(1) << (32 - remaining_bits)) - 1));
                 val >>= 32 - remaining_bits;
                 *begin++ = saved_bits | (extra_bits << remaining_bits);
                 if(begin == end) return;
@@ -189,7 +192,7 @@ void generate_from_int(Engine& eng, Iter begin, Iter end)
             }
             if(bits >= 32) {
                 for(; available_bits >= 32; available_bits -= 32) {
-                    boost::uint_least32_t word = boost::uint_least32_t(val) & 0xFFFFFFFFu;
+                    boost::uint_least32_t word = boost::uint_least32_t(val & 0xFFFFFFFFu);
                     int suppress_warning = (bits >= 32);
                     BOOST_ASSERT(suppress_warning == 1);
                     val >>= (32 * suppress_warning);
-- 
2.43.0


From 4def97eb2ed97010d0e21cbc060cd66dfac36d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 67/68] fix: independent_bits_engine: checked types throw if
 the base engine uses its full range

---
 include/boost/random/independent_bits.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/boost/random/independent_bits.hpp b/include/boost/random/independent_bits.hpp
index ff59d20..a17f277 100644
--- a/include/boost/random/independent_bits.hpp
+++ b/include/boost/random/independent_bits.hpp
@@ -151,7 +151,7 @@ public:
         base_unsigned y0_mask, y1_mask;
         calc_params(n, range, w0, n0, y0, y1, y0_mask, y1_mask);
         // each step has to produce at least one bit.
-        if(n < w && base_unsigned(range - y0 + 1) > y0 / n) {
+        if(n < w && y0 != 0 && base_unsigned(range - y0 + 1) > y0 / n) {
             // increment n and try again.
             ++n;
             calc_params(n, range, w0, n0, y0, y1, y0_mask, y1_mask);
@@ -167,7 +167,7 @@ public:
             base_unsigned u;
             do {
                 u = detail::subtract<base_result_type>()(_base(), (_base.min)());
-            } while(u > base_unsigned(y0 - 1));
+            } while(y0 != 0 && u > base_unsigned(y0 - 1));
             return u & y0_mask;
         }
 
@@ -176,14 +176,14 @@ public:
             base_unsigned u;
             do {
                 u = detail::subtract<base_result_type>()(_base(), (_base.min)());
-            } while(u > base_unsigned(y0 - 1));
+            } while(y0 != 0 && u > base_unsigned(y0 - 1));
             S = (S << w0) + (u & y0_mask);
         }
         for(std::size_t k = 0; k < (n - n0); ++k) {
             base_unsigned u;
             do {
                 u = detail::subtract<base_result_type>()(_base(), (_base.min)());
-            } while(u > base_unsigned(y1 - 1));
+            } while(y1 != 0 && u > base_unsigned(y1 - 1));
             S = (S << (w0 + 1)) + (u & y1_mask);
         }
         return S;
@@ -262,11 +262,16 @@ private:
         BOOST_ASSERT(w >= n);
         w0 = w/n;
         n0 = n - w % n;
-        y0_mask = (base_unsigned(2) << (w0 - 1)) - 1;
-        y1_mask = (y0_mask << 1) | 1;
-        y0 = (range + 1) & ~y0_mask;
-        y1 = (range + 1) & ~y1_mask;
-        BOOST_ASSERT(y0 != 0 || base_unsigned(range + 1) == 0);
+        // Checked types throw on overflow, so nothing here may wrap around.
+        const bool full = range == (std::numeric_limits<base_unsigned>::max)();
+        y0_mask = base_unsigned(1) << (w0 - 1);
+        y0_mask |= y0_mask - 1;
+        // y1_mask isn't used if n0 is n.
+        y1_mask = n0 == n ? y0_mask : base_unsigned((y0_mask << 1) | 1);
+        // zero stands for range + 1 if the range is that of the type.
+        y0 = full ? base_unsigned(0) : base_unsigned((range + 1) & ~y0_mask);
+        y1 = full ? base_unsigned(0) : base_unsigned((range + 1) & ~y1_mask);
+        BOOST_ASSERT(y0 != 0 || full);
     }
     /// \endcond
 
-- 
2.43.0


From e1014f18917d66e4f90728e4583262526beab30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:29 +0000
Subject: [PATCH 68/68] fix: faure: a coordinate can be rounded to the excluded
 upper bound one

---
 include/boost/random/faure.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/faure.hpp b/include/boost/random/faure.hpp
index b44749a..4cda44e 100644
--- a/include/boost/random/faure.hpp
+++ b/include/boost/random/faure.hpp
@@ -143,7 +143,7 @@ struct binomial_coefficients
         qs_pow = fr::integer_pow(static_cast<size_type>(qs_base), ilog);
       }
 
-      *first = compute_recip(seq, ytemp.rbegin());
+      *first = less_than_one(compute_recip(seq, ytemp.rbegin()));
 
       // Find other components using the Faure method.
       ++first;
@@ -163,11 +163,19 @@ struct binomial_coefficients
           r *= static_cast<RealType>(qs_base);
           *first += ytemp[static_cast<std::size_t>(i)] / r;
         }
+        *first = less_than_one(*first);
       }
     }
   }
 
 private:
+  // The sum of the digits divided by powers of the base is less than one,
+  // but it can be rounded to one.
+  static RealType less_than_one(RealType x)
+  {
+    return x < RealType(1) ? x : RealType(1) - std::numeric_limits<RealType>::epsilon() / 2;
+  }
+
   inline static size_type size_hint(size_type n)
   {
     return n * (n + 1) / 2;
-- 
2.43.0

