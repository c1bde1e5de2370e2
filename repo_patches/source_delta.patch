From 88095038aa23b25dc43029c958ca6b65bd0e4e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:03 +0000
Subject: [PATCH 01/23] fix: compound add/sub of complex numbers update the
 imaginary part from itself

`a += b` and `a -= b` computed the new imaginary part from the (already
updated) real part.
---
 src/complex/cartesian_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 530286f..9e64c57 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -310,7 +310,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn add_assign(&mut self, rhs: $T) {
                 self.re =  self.re+rhs.re;
-                self.im =  self.re+rhs.im;
+                self.im =  self.im+rhs.im;
             }
         }
         
@@ -326,7 +326,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn sub_assign(&mut self, rhs: $T) {
                 self.re =  self.re-rhs.re;
-                self.im =  self.re-rhs.im;
+                self.im =  self.im-rhs.im;
             }
         }
     }
-- 
2.43.0


From 397cf729eed742cc2449cb7c05641d9efce6b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:03 +0000
Subject: [PATCH 02/23] fix: complex division uses the imaginary part of the
 divisor

All three implementations read the divisor's real part twice.
---
 src/complex/cartesian_impl.rs | 4 ++--
 src/complex/ops.rs            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 9e64c57..bf5771b 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -388,7 +388,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 return Cartesian::new((a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2)), (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2)));
             }
@@ -401,7 +401,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 self.re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
                 self.im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
diff --git a/src/complex/ops.rs b/src/complex/ops.rs
index 5539eb9..07ba67c 100644
--- a/src/complex/ops.rs
+++ b/src/complex/ops.rs
@@ -203,7 +203,7 @@ pub fn div_cartesian<T>( numerator: Cartesian<T>, denominator: Cartesian<T>  ) -
     let a = numerator.re;
     let b = numerator.im;
     let c = denominator.re;
-    let d = denominator.re;
+    let d = denominator.im;
 
     let re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
     let im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
-- 
2.43.0


From 5528ae03e69d4ba764352593ac61e82d7c1c99e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:17 +0000
Subject: [PATCH 03/23] fix: dividing a complex number in place by a zero
 scalar saturates like `/`

The saturated value was divided by zero all the same: a panic for fixed
point components and infinity for floating point ones.
---
 src/complex/cartesian_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index bf5771b..2202c95 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -458,6 +458,7 @@ impl <T1: MixedNumSigned + MixedOps + MixedZero, T2: MixedReal + MixedOps + Mixe
         if rhs == T1::mixed_zero() {
             self.re =T2::mixed_max_value();
             self.im =T2::mixed_max_value();
+            return;
         }
         self.re = self.re/T2::mixed_from_num(rhs);
         self.im = self.im/T2::mixed_from_num(rhs);
-- 
2.43.0


From 6829dcf12b94af043813b84b5bb545a438e23439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:43 +0000
Subject: [PATCH 04/23] fix: dividing a complex number by a scalar that is zero
 in its component type saturates

A non-zero divisor of a wider type can become zero when converted to the
component type, which made the division of fixed point components panic.
---
 src/complex/cartesian_impl.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 2202c95..722e676 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -434,10 +434,11 @@ impl <T1: MixedNumSigned + MixedOps + MixedZero, T2: MixedReal + MixedOps + Mixe
     /// ```
     #[inline]
     fn div(self, rhs: T1) -> Self {
-        if rhs == T1::mixed_zero() {
+        let divisor = T2::mixed_from_num(rhs);
+        if divisor == T2::mixed_from_num(0i32) {
             return Cartesian::new(T2::mixed_max_value(), T2::mixed_max_value());
         }
-        return Cartesian::new(self.re/T2::mixed_from_num(rhs), self.im/T2::mixed_from_num(rhs));
+        return Cartesian::new(self.re/divisor, self.im/divisor);
     }
 }
 
@@ -455,13 +456,14 @@ impl <T1: MixedNumSigned + MixedOps + MixedZero, T2: MixedReal + MixedOps + Mixe
     /// ```
     #[inline]
     fn div_assign(&mut self, rhs: T1) {
-        if rhs == T1::mixed_zero() {
+        let divisor = T2::mixed_from_num(rhs);
+        if divisor == T2::mixed_from_num(0i32) {
             self.re =T2::mixed_max_value();
             self.im =T2::mixed_max_value();
             return;
         }
-        self.re = self.re/T2::mixed_from_num(rhs);
-        self.im = self.im/T2::mixed_from_num(rhs);
+        self.re = self.re/divisor;
+        self.im = self.im/divisor;
     }
 }
 
-- 
2.43.0


From 334d977ab26f8f9d1946aff82327b0898c7a97fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:01 +0000
Subject: [PATCH 05/23] fix: wrap_phase terminates for every input and works on
 narrow fixed point types
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Subtracting 2π turn by turn never ends once a turn is below the resolution of
a floating point phase (or the phase is infinite), takes billions of steps for
large fixed point phases, and forming 2π overflows types with three integer
bits although π itself fits. The result is unchanged where it was right.
---
 src/trigonometry.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index bf2b450..93107cc 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -163,18 +163,24 @@ pub fn cos<T>( x: T ) -> T
 pub fn wrap_phase<T>( phi: T ) -> T 
     where T: crate::MixedNum + crate::MixedOps + crate::MixedPi + crate::MixedNumSigned
 {
-    let mixed_pi  = T::mixed_pi();
-    let tau = T::mixed_from_num(2)*mixed_pi;
- 
+    let mixed_pi = T::mixed_pi();
+
     let mut temp_scalar = phi;
-    
-    while temp_scalar < -mixed_pi
+
+    // Remove whole turns. 2π is only formed when |phi| reaches it, as the narrowest fixed point types cannot hold it.
+    if mixed_pi <= temp_scalar && mixed_pi <= temp_scalar-mixed_pi
+        || temp_scalar < -mixed_pi && temp_scalar+mixed_pi <= -mixed_pi
+    {
+        temp_scalar = temp_scalar % (mixed_pi+mixed_pi);
+    }
+
+    if temp_scalar < -mixed_pi
     {
-        temp_scalar = temp_scalar + tau;
+        temp_scalar = (temp_scalar + mixed_pi) + mixed_pi;
     }
-    while mixed_pi <= temp_scalar
+    else if mixed_pi <= temp_scalar
     {
-        temp_scalar = temp_scalar - tau;
+        temp_scalar = (temp_scalar - mixed_pi) - mixed_pi;
     }
     return temp_scalar;
 }
-- 
2.43.0


From 4fb1537e1abf44885a1f44a118b9e77380f914d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:24 +0000
Subject: [PATCH 06/23] fix: mixed_powi of integers and fixed point numbers
 accepts negative powers

A negative power was cast to usize: 2^64-1 or so multiplications, or an
overflow panic on the way. It is now a power of the reciprocal, as it is for
floating point numbers.
---
 src/fixed_impl.rs   |  4 ++--
 src/int_impl.rs     |  2 +-
 src/trigonometry.rs | 12 ++++++++++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index e68dc8e..9c11f86 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -168,7 +168,7 @@ macro_rules! impl_mixed_num_for_fixed_unsigned{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
-                return trigonometry::powi( *self, exp as usize );
+                return trigonometry::powi_signed( *self, exp );
             }
         }
 
@@ -222,7 +222,7 @@ macro_rules! impl_mixed_num_for_fixed_signed{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
-                return trigonometry::powi( *self, exp as usize );
+                return trigonometry::powi_signed( *self, exp );
             }
         }
 
diff --git a/src/int_impl.rs b/src/int_impl.rs
index 3ab4005..f92ccab 100644
--- a/src/int_impl.rs
+++ b/src/int_impl.rs
@@ -49,7 +49,7 @@ macro_rules! impl_mixed_num_for_primitive{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
-                return trigonometry::powi( *self, exp as usize );
+                return trigonometry::powi_signed( *self, exp );
             }
         }
 
diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index 93107cc..0c32e6a 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -216,4 +216,16 @@ pub fn powi<T>( base:T, power:usize ) -> T
         temp = temp*base;
     }
     return temp;
+}
+
+/// Raise a number to a possibly negative integer-valued power, for types without a native implementation.
+/// `base^power`, where a negative power is a power of the reciprocal of `base`.
+pub(crate) fn powi_signed<T>( base:T, power:i32 ) -> T
+    where T: crate::MixedNum + crate::MixedOps
+{
+    if power < 0
+    {
+        return powi( T::mixed_from_num(1)/base, power.unsigned_abs() as usize );
+    }
+    return powi( base, power as usize );
 }
\ No newline at end of file
-- 
2.43.0


From 5ab2ec6f750f31dcce13a23266f4f43d202008d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:27 +0000
Subject: [PATCH 07/23] fix: niirf normalizes by two halvings, as signed types
 with three integer bits cannot hold 4

The square root of any value outside 0.25 =< x < 1 panicked for those types.
---
 src/trigonometry/sqrt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 8294bec..08316f3 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -72,12 +72,12 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     while x_< T::mixed_from_num(0.25)
     {
         norm -=1;
-        x_ = x_*T::mixed_from_num(4);
+        x_ = x_*T::mixed_from_num(2)*T::mixed_from_num(2);
     }
     while T::mixed_from_num(1.0) <= x_
     {
         norm +=1;
-        x_ = x_/T::mixed_from_num(4);
+        x_ = x_/T::mixed_from_num(2)/T::mixed_from_num(2);
     }
 
     /// LUT for getting the acceleration factor β.
-- 
2.43.0


From 3884cf09ee953f8faaeeb8b48456ae7b055bfda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:39 +0000
Subject: [PATCH 08/23] fix: niirf of infinity is infinity instead of an
 endless loop

---
 src/trigonometry/sqrt.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 08316f3..9d16fc2 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -76,8 +76,13 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     }
     while T::mixed_from_num(1.0) <= x_
     {
+        let scaled = x_/T::mixed_from_num(2)/T::mixed_from_num(2);
+        if scaled == x_
+        {
+            return x_; // Only infinity is left unchanged; it is its own square root.
+        }
         norm +=1;
-        x_ = x_/T::mixed_from_num(2)/T::mixed_from_num(2);
+        x_ = scaled;
     }
 
     /// LUT for getting the acceleration factor β.
-- 
2.43.0


From 081f4eee5613d95b838f6a1dfa08d33d602459b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:26 +0000
Subject: [PATCH 09/23] fix: polynomial atan2 works in the ratio of its
 arguments

The squares of small arguments became zero (a division by zero panic for fixed
point, NaN for floating point) and those of large ones overflowed, although
the angle only depends on the ratio.
---
 src/trigonometry/atan.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/trigonometry/atan.rs b/src/trigonometry/atan.rs
index 7c12cff..0c569ec 100644
--- a/src/trigonometry/atan.rs
+++ b/src/trigonometry/atan.rs
@@ -15,7 +15,9 @@
 fn atan_poly_1<T>( y: T, x: T ) -> T
     where T: crate::MixedNum + crate::MixedNumSigned + crate::MixedOps + crate::MixedPowi
 {
-    let phi = (x*y) / ( x.mixed_powi(2) + T::mixed_from_num( 0.28125 )*y.mixed_powi(2) );
+    // Written in the ratio y/x, |y/x| =< 1, as the squares of the arguments may not be representable.
+    let r = y/x;
+    let phi = r / ( T::mixed_from_num( 1 ) + T::mixed_from_num( 0.28125 )*r.mixed_powi(2) );
     return phi;
 }
 
@@ -34,7 +36,9 @@ fn atan_poly_1<T>( y: T, x: T ) -> T
 fn atan_poly_2<T>( y: T, x: T ) -> T
     where T: crate::MixedNum + crate::MixedNumSigned + crate::MixedOps + crate::MixedPowi
 {
-    let phi     = (x*y) / ( y.mixed_powi(2) + T::mixed_from_num( 0.28125 )*x.mixed_powi(2) );
+    // Written in the ratio x/y, |x/y| =< 1, as the squares of the arguments may not be representable.
+    let r = x/y;
+    let phi = r / ( T::mixed_from_num( 1 ) + T::mixed_from_num( 0.28125 )*r.mixed_powi(2) );
     return phi;
 }
 
-- 
2.43.0


From bac8596bfbbdc5e9383602346e4236982961dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:19 +0000
Subject: [PATCH 10/23] fix: fixed point atan and atan2 do not overflow for
 steep angles

cordic::atan2 divides its arguments, which overflows whenever the quotient is
not representable (the argument of any complex number close to the imaginary
axis, in types with few integer bits), and cordic::atan overflows for arguments
a little below the maximum of the type. Steep angles now go through the
reciprocal. The angle of zero is zero, as for floating point numbers.
---
 src/fixed_impl.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 9c11f86..6c6b033 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -301,11 +301,31 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the atan of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_atan(&self) -> Self {
+                // |x| > 1 is mapped to its reciprocal, as it may overflow in the CORDIC iterations.
+                let one = Self::from_num(1);
+                if one < *self
+                {
+                    return Self::FRAC_PI_2 - cordic::atan(one / *self);
+                }
+                else if *self < -one
+                {
+                    return -Self::FRAC_PI_2 - cordic::atan(one / *self);
+                }
                 return cordic::atan(*self);
             }
             /// Take the atan of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_atan2(&self, other:Self) -> Self {
+                if *self == Self::from_num(0) && other == Self::from_num(0)
+                {
+                    return Self::from_num(0);
+                }
+                // The quotient is kept at most one in magnitude, as it may not be representable otherwise.
+                if other.unsigned_abs() < self.unsigned_abs()
+                {
+                    let phi = cordic::atan(other / *self);
+                    return if self.is_positive() { Self::FRAC_PI_2 - phi } else { -Self::FRAC_PI_2 - phi };
+                }
                 return cordic::atan2(*self, other);
             }
             /// Take the atan of self. Implementation varies with type.
-- 
2.43.0


From 23670e595d9ec1abca2a08b31e3709d806ea4095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:46 +0000
Subject: [PATCH 11/23] fix: fixed point asin and acos work for types with
 mostly fractional bits

cordic::asin shifts by up to twice the number of fractional bits, which panics
(or shifts by a wrapped amount) when that exceeds the width of the type:
every 32 bit type with more than 16 fractional bits, for any argument.
---
 src/fixed_impl.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 6c6b033..632aea1 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -274,7 +274,17 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the arcsin of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_asin(&self) -> Self {
-                return cordic::asin(*self);
+                // cordic::asin shifts by more than the width of types with mostly fractional bits.
+                let one = Self::from_num(1);
+                if one <= *self
+                {
+                    return Self::FRAC_PI_2;
+                }
+                else if *self <= -one
+                {
+                    return -Self::FRAC_PI_2;
+                }
+                return self.mixed_atan2( cordic::sqrt((one-*self)*(one+*self)) );
             }
         }
 
@@ -288,7 +298,7 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the arccos of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_acos(&self) -> Self {
-                return cordic::acos(*self);
+                return Self::FRAC_PI_2 - self.mixed_asin();
             }
         }
 
-- 
2.43.0


From a58912c239ba1d2876652ed5aec5671112f20e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:27 +0000
Subject: [PATCH 12/23] fix: fixed point sine and cosine terminate promptly for
 large angles

cordic removes one half turn per iteration: 10^18 of them for the largest angles
of the 64 bit types.
---
 src/fixed_impl.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 632aea1..18bb3c3 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -263,13 +263,13 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the sin of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_sin(&self) -> Self {
-                return cordic::sin(*self);
+                return cordic::sin(trigonometry::wrap_phase(*self)); // cordic removes large angles one half turn at a time.
             }
             #[inline(always)]
             fn mixed_sincos(&self) -> (Self, Self) 
                 where Self: Sized
             {
-                return cordic::sin_cos(*self);
+                return cordic::sin_cos(trigonometry::wrap_phase(*self)); // cordic removes large angles one half turn at a time.
             }
             /// Take the arcsin of self. Implementation varies with type.
             #[inline(always)]
@@ -293,7 +293,7 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the cos of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_cos(&self) -> Self {
-                return cordic::cos(*self);
+                return cordic::cos(trigonometry::wrap_phase(*self)); // cordic removes large angles one half turn at a time.
             }
             /// Take the arccos of self. Implementation varies with type.
             #[inline(always)]
-- 
2.43.0


From 40895bc73f00e91cbed00a434f9d9501da026be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:27 +0000
Subject: [PATCH 13/23] fix: fixed point exp of a very negative number is zero
 instead of a near-endless loop

---
 src/fixed_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 18bb3c3..9d4a0c7 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -350,6 +350,11 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the exp() of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_exp(&self) -> Self {
+                // Below -64 the result is zero in any of the types, but cordic would divide by e that many times.
+                if self.to_num::<i64>() < -64
+                {
+                    return Self::from_num(0);
+                }
                 return cordic::exp(*self);
             }
         }
-- 
2.43.0


From 308dfad8b8a712168f8b3c8b7f9476e8f57f1dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:07 +0000
Subject: [PATCH 14/23] fix: polynomial sine works for fixed point types that
 cannot hold 9!

Every 8 and 16 bit type, and 32 bit types with more than 12 fractional bits,
panicked (or divided by a wrapped coefficient). The same polynomial is evaluated
from terms that fit.
---
 src/trigonometry.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index 0c32e6a..79eba1d 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -85,11 +85,16 @@ pub fn sin<T>( x: T ) -> T
         x_ = mixed_pi_half-delta;
     }
 
-    // Calculate sine by using 
-    let mut sinx = x_-( x_.mixed_powi(3)/T::mixed_from_num(6) );
-    sinx += x_.mixed_powi(5)/T::mixed_from_num(120);
-    sinx -= x_.mixed_powi(7)/T::mixed_from_num(5040);
-    sinx += x_.mixed_powi(9)/T::mixed_from_num(362880);
+    // Each term is formed from the previous one, as neither the high powers of x nor the large factorials fit most fixed point types.
+    let x_sqr = x_*x_;
+    let mut term = (x_sqr*x_)/T::mixed_from_num(2)/T::mixed_from_num(3);
+    let mut sinx = x_-term;
+    term = (term*x_sqr)*T::mixed_from_num(1.0/20.0);
+    sinx += term;
+    term = (term*x_sqr)*T::mixed_from_num(1.0/42.0);
+    sinx -= term;
+    term = (term*x_sqr)*T::mixed_from_num(1.0/72.0);
+    sinx += term;
     return sinx;
 }
 
-- 
2.43.0


From a269b97600ac42cc97a1d4080bf1a3969a9e69ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:14 +0000
Subject: [PATCH 15/23] fix: polynomial cosine does not overflow when shifting
 its argument by a quarter turn

---
 src/trigonometry.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index 79eba1d..436caa1 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -144,8 +144,16 @@ pub fn cos<T>( x: T ) -> T
     // shift to enable use of more accurate sinepolynomial method.
     let mixed_pi_half = T::mixed_pi()/T::mixed_from_num(2);
 
-    let mut x_shifted = x+mixed_pi_half;
-    x_shifted = wrap_phase(x_shifted);
+    let mut x_shifted = wrap_phase(x);
+    // The shifted phase is wrapped as well, without leaving the range of the type.
+    if x_shifted < mixed_pi_half
+    {
+        x_shifted = x_shifted+mixed_pi_half;
+    }
+    else
+    {
+        x_shifted = (x_shifted-T::mixed_pi())-mixed_pi_half;
+    }
     return sin(x_shifted);
 }
 
-- 
2.43.0


From c18d17d75fb911df8a2b546cb7d7b6b05c209cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:20 +0000
Subject: [PATCH 16/23] fix: state the accuracy the polynomial atan2 has, 0.3
 degrees

x*y/(x^2+0.28125*y^2) is off by up to 0.0049 rad, 0.28 degrees; the
documentation promised a tenth of that.
---
 src/traits/math_traits.rs | 2 +-
 src/trigonometry/atan.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits/math_traits.rs b/src/traits/math_traits.rs
index b737b76..be84180 100644
--- a/src/traits/math_traits.rs
+++ b/src/traits/math_traits.rs
@@ -53,7 +53,7 @@ pub trait MixedAtan
     fn mixed_atan2(&self, other:Self) -> Self;
     /// Calculate atan2(y,x) using a selection of polynomial approximations, one for each octant in the unit circle.
     /// 
-    /// The method is accurat within 0.028 degrees.
+    /// The method is accurate within 0.3 degrees.
     /// 
     /// \[1\] R. G. Lyons, Streamlining Digital Signal Processing, Second Edition, IEEE Press, 2012.
     /// 
diff --git a/src/trigonometry/atan.rs b/src/trigonometry/atan.rs
index 0c569ec..f322b06 100644
--- a/src/trigonometry/atan.rs
+++ b/src/trigonometry/atan.rs
@@ -45,7 +45,7 @@ fn atan_poly_2<T>( y: T, x: T ) -> T
 
 /// Calculate atan2(y,x) using a selection of polynomial approximations, one for each octant in the unit circle.
 /// 
-/// The method is accurat within 0.028 degrees.
+/// The method is accurate within 0.3 degrees.
 /// 
 /// \[1\] R. G. Lyons, Streamlining Digital Signal Processing, Second Edition, IEEE Press, 2012.
 /// 
-- 
2.43.0


From 76dcede7396c76f4fe89f6c13ae01aef56285083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:35 +0000
Subject: [PATCH 17/23] fix: niirf works for unsigned fixed point types when
 the estimate exceeds the root

---
 src/trigonometry/sqrt.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 9d16fc2..325c3b5 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -145,7 +145,15 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     let mut y = (T::mixed_from_num(2)*x_)/T::mixed_from_num(3) + T::mixed_from_num(0.354167);   // y0
     for _n in 1..iterations
     {
-        y = beta(x_)*(x_-y.mixed_powi(2))+y;
+        let y_sqr = y.mixed_powi(2);
+        if x_ < y_sqr
+        {
+            y = y-beta(x_)*(y_sqr-x_); // The difference is negative, which an unsigned type cannot hold.
+        }
+        else
+        {
+            y = beta(x_)*(x_-y_sqr)+y;
+        }
     }
 
     while norm.abs() != 0
-- 
2.43.0


From c19573a28c38c6e593e7c5d3b30f1eee1d476bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:56 +0000
Subject: [PATCH 18/23] fix: state the accuracy niirf has, 0.1 %

---
 src/traits/math_traits.rs | 2 +-
 src/trigonometry/sqrt.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits/math_traits.rs b/src/traits/math_traits.rs
index be84180..600816f 100644
--- a/src/traits/math_traits.rs
+++ b/src/traits/math_traits.rs
@@ -118,7 +118,7 @@ pub trait MixedSqrt
     /// A fast implementation of the square root using the Nonlinear IIR Filter (NIIRF) method \[1\].
     /// 
     /// Only valid for positive values of `self`. Negative values are forced positive before converison.
-    /// Accurate to 5*10⁻⁴ with two iterations \[2\].
+    /// Accurate within 0.1 % of the root with two iterations \[2\].
     /// 
     /// The structure of the estimator is illustrated below \[1\].
     /// 
diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 325c3b5..471c7ab 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -5,7 +5,7 @@ use crate::*;
 /// A fast implementation of the square root using the Nonlinear IIR Filter (NIIRF) method \[1\].
 /// 
 /// Only valid for positive values of x.
-/// Accurate to 5*10⁻⁴ with two iterations \[2\].
+/// Accurate within 0.1 % of the root with two iterations \[2\].
 /// 
 /// The structure of the estimator is illustrated below \[1\].
 /// 
-- 
2.43.0


From c1d0d755fa266e3e5149098969b6b8d9af8ce5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:57 +0000
Subject: [PATCH 19/23] fix: arccosh of floats below one is NaN instead of an
 arbitrary number

---
 src/float_impl/f32_impl.rs | 5 +++++
 src/float_impl/f64_impl.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/float_impl/f32_impl.rs b/src/float_impl/f32_impl.rs
index b46ac55..ed5981d 100644
--- a/src/float_impl/f32_impl.rs
+++ b/src/float_impl/f32_impl.rs
@@ -50,6 +50,11 @@ impl MixedCosh for f32
     }
     #[inline(always)]
     fn mixed_acosh(&self) -> Self {
+        // libm gives arbitrary numbers below the domain.
+        if *self < 1.0
+        {
+            return Self::NAN;
+        }
         return libm::acoshf(*self);
     }
 }
diff --git a/src/float_impl/f64_impl.rs b/src/float_impl/f64_impl.rs
index b1005c1..02f2da0 100644
--- a/src/float_impl/f64_impl.rs
+++ b/src/float_impl/f64_impl.rs
@@ -50,6 +50,11 @@ impl MixedCosh for f64
     }
     #[inline(always)]
     fn mixed_acosh(&self) -> Self {
+        // libm gives arbitrary numbers below the domain.
+        if *self < 1.0
+        {
+            return Self::NAN;
+        }
         return libm::acosh(*self);
     }
 }
-- 
2.43.0


From 323004f734cfc44f3c8d7f82efe352a3562f585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:20 +0000
Subject: [PATCH 20/23] fix: polar times cartesian can be used, it asked for
 real numbers that convert to polar form

---
 src/complex/polar_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/polar_impl.rs b/src/complex/polar_impl.rs
index 0e30f4b..9c8de5e 100644
--- a/src/complex/polar_impl.rs
+++ b/src/complex/polar_impl.rs
@@ -141,7 +141,7 @@ impl <T: MixedNum + MixedNumSigned + MixedOps> core::ops::Mul<Polar<T>> for Pola
     }
 }
 
-impl <T: MixedNum + MixedNumSigned + MixedSqrt + MixedOps + MixedAbs + MixedPowi + MixedAtan + ToPolar<T>> core::ops::Mul<Cartesian<T>> for Polar<T> {
+impl <T: MixedNum + MixedNumSigned + MixedSqrt + MixedOps + MixedAbs + MixedPowi + MixedAtan> core::ops::Mul<Cartesian<T>> for Polar<T> {
     type Output = Self;
     #[inline]
     fn mul(self, rhs: Cartesian<T>) -> Self {
-- 
2.43.0


From c7e3cd93c98a302a966c02f977bf3ab632a1cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 21/23] fix: the polynomial arctangent of NaN is NaN on the
 axes as well

---
 src/trigonometry/atan.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trigonometry/atan.rs b/src/trigonometry/atan.rs
index f322b06..9b4088b 100644
--- a/src/trigonometry/atan.rs
+++ b/src/trigonometry/atan.rs
@@ -86,6 +86,11 @@ pub fn atan2<T>( y: T, x: T ) -> T
     let pi      = T::mixed_pi();
     let pi_half = T::mixed_pi()/T::mixed_from_num(2);
 
+    if x != x || y != y
+    {
+        return y/x; // Not a number.
+    }
+
     // Check which quadrant the result will land in.
     if  y == T::mixed_zero()
     {
-- 
2.43.0


From 680c73460f019e5478f46eb616566468f09fecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:13 +0000
Subject: [PATCH 22/23] fix: fixed point atan2 does not overflow for the lowest
 value as second argument

---
 src/fixed_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 9d4a0c7..7b4a87b 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -336,6 +336,11 @@ macro_rules! impl_mixed_num_for_fixed_signed{
                     let phi = cordic::atan(other / *self);
                     return if self.is_positive() { Self::FRAC_PI_2 - phi } else { -Self::FRAC_PI_2 - phi };
                 }
+                // cordic::atan2 negates the second argument in this quadrant, which the lowest value does not allow.
+                if self.is_positive() && other.is_negative()
+                {
+                    return Self::PI + cordic::atan(*self / other);
+                }
                 return cordic::atan2(*self, other);
             }
             /// Take the atan of self. Implementation varies with type.
-- 
2.43.0


From a6bcd8b70352a5cf45b5c5f425141c3a804d11b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:25 +0000
Subject: [PATCH 23/23] fix: the polynomial atan2 does not overflow for the
 lowest value of a type

---
 src/trigonometry/atan.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/trigonometry/atan.rs b/src/trigonometry/atan.rs
index 9b4088b..6249380 100644
--- a/src/trigonometry/atan.rs
+++ b/src/trigonometry/atan.rs
@@ -79,9 +79,9 @@ fn atan_poly_2<T>( y: T, x: T ) -> T
 pub fn atan2<T>( y: T, x: T ) -> T
     where T:  crate::MixedReal + crate::MixedNumSigned + crate::MixedOps + crate::MixedZero + crate::MixedPi + crate::MixedAbs + crate::MixedPowi
 {
-    // Precompute
-    let y_abs = y.mixed_abs();
-    let x_abs = x.mixed_abs();
+    // Precompute. The magnitudes are negated, as that of the lowest value of a type may not be representable.
+    let y_abs_neg = if y < T::mixed_zero() { y } else { -y };
+    let x_abs_neg = if x < T::mixed_zero() { x } else { -x };
 
     let pi      = T::mixed_pi();
     let pi_half = T::mixed_pi()/T::mixed_from_num(2);
@@ -112,7 +112,7 @@ pub fn atan2<T>( y: T, x: T ) -> T
         else if x.mixed_is_positive()
         {
             // First octant.
-            if y_abs - x_abs < T::mixed_from_num( 0.0 )
+            if x_abs_neg < y_abs_neg
             {
                 return atan_poly_1( y, x );
             }
@@ -125,7 +125,7 @@ pub fn atan2<T>( y: T, x: T ) -> T
         else
         {
             // Third octant.
-            if T::mixed_zero() <= y_abs - x_abs
+            if y_abs_neg <= x_abs_neg
             {
                 return pi_half - atan_poly_2( y, x );
             }
@@ -145,7 +145,7 @@ pub fn atan2<T>( y: T, x: T ) -> T
         if x.mixed_is_positive()
         {
             // Fifth octant.
-            if y_abs - x_abs < T::mixed_zero()
+            if x_abs_neg < y_abs_neg
             {
                 return atan_poly_1( y, x );
             }
@@ -158,7 +158,7 @@ pub fn atan2<T>( y: T, x: T ) -> T
         else
         {
             // Seventh octant.
-            if T::mixed_zero() <= y_abs - x_abs
+            if y_abs_neg <= x_abs_neg
             {
                 return -pi_half - atan_poly_2( y, x );
             }
-- 
2.43.0

