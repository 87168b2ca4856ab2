From 720b4b03b57441b2d853e89ed19d660dcddd129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 01/24] fix: consider field orientation in type equivalence

The orientation of a field was compared with itself, making bundles which
differ only in a flip type equivalent.
---
 src/types/type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/type.rs b/src/types/type.rs
index 5c0b687..44cac56 100644
--- a/src/types/type.rs
+++ b/src/types/type.rs
@@ -92,7 +92,7 @@ impl TypeExt for Type {
                     .zip(v2.iter())
                     .all(|(f1, f2)| f1.name() == f2.name() &&
                         TypeExt::eq(f1.r#type(), f2.r#type()) &&
-                        f1.orientation() == f1.orientation())
+                        f1.orientation() == f2.orientation())
             } else {
                 false
             },
-- 
2.43.0


From 76bb7e6c05a0182be54e741a809112d7c345cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 02/24] fix: make reset types equivalent to themselves

Type equivalence is reflexive, but neither Reset nor AsyncReset was type
equivalent to itself.
---
 src/types/ground.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/ground.rs b/src/types/ground.rs
index 64e4098..44106e2 100644
--- a/src/types/ground.rs
+++ b/src/types/ground.rs
@@ -68,6 +68,7 @@ impl super::TypeExt for GroundType {
             (Self::SInt(_),     Self::SInt(_))     => true,
             (Self::Fixed(_, _), Self::Fixed(_, _)) => true,
             (Self::Clock,       Self::Clock)       => true,
+            (Self::Reset(l),    Self::Reset(r))    => l == r,
             (Self::Analog(_),   Self::Analog(_))   => true,
             _ => false
         }
-- 
2.43.0


From 54b91bb8ce0cd95df0ea6c8de20fd28e155146d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 03/24] fix: combine equal reset types

Combining a Reset or AsyncReset with itself failed, hence e.g. a mux over
two resets could not be typed.
---
 src/types/ground.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/types/ground.rs b/src/types/ground.rs
index 44106e2..b0e1c56 100644
--- a/src/types/ground.rs
+++ b/src/types/ground.rs
@@ -89,7 +89,8 @@ impl super::TypeExt for GroundType {
 ///
 /// This [Combinator] combines [GroundType::UInt]s, [GroundType::SInt]s and
 /// [GroundType::Analog] based on [BitWidth] combination. [GroundType::Clock]s
-/// are combined to [GroundType::Clock]. Combination of different
+/// are combined to [GroundType::Clock], [GroundType::Reset]s of the same kind
+/// are combined to that [GroundType::Reset]. Combination of different
 /// [GroundType] variants or [GroundType::Fixed] will result in an `Err`.
 impl<C: Combinator<BitWidth>> Combinator<GroundType> for C {
     fn combine<'a>(
@@ -102,6 +103,7 @@ impl<C: Combinator<BitWidth>> Combinator<GroundType> for C {
             (GroundType::UInt(l),   GroundType::UInt(r))   => combine(l, r).map(GroundType::UInt),
             (GroundType::SInt(l),   GroundType::SInt(r))   => combine(l, r).map(GroundType::SInt),
             (GroundType::Clock,     GroundType::Clock)     => Ok(GroundType::Clock),
+            (GroundType::Reset(l),  GroundType::Reset(r)) if l == r => Ok(GroundType::Reset(*l)),
             (GroundType::Analog(l), GroundType::Analog(r)) => combine(l, r).map(GroundType::Analog),
             _ => Err((lhs, rhs))
         }
-- 
2.43.0


From 72d7d2cc22b30c599929bd16a2dde0076b661d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 04/24] fix: compute the width of cat as the sum of the operand
 widths

---
 src/expr/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 1ec6fcf..55ce7e7 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -226,7 +226,7 @@ impl<R> types::Typed for Operation<R>
             Self::OrReduce(..)              => Ok(GT::UInt(Some(1))),
             Self::XorReduce(..)             => Ok(GT::UInt(Some(1))),
             Self::Cat(lhs, rhs)             => Ok(
-                GT::UInt(max_width(ground(lhs)?.width(), ground(rhs)?.width())
+                GT::UInt(sum_width(ground(lhs)?.width(), ground(rhs)?.width())
             )),
             Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(high
                 .or(t.width())
-- 
2.43.0


From 748b7fc07c8e35e763db1f101957aefc90f7b6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 05/24] fix: compute the width of tail and head correctly

The width of a tail was off by one, the width of a zero-width head was
unknown and the computation of the width of a bits operation spanning all
possible bits overflowed.
---
 src/expr/primitive.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 55ce7e7..cbf3aae 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -228,11 +228,14 @@ impl<R> types::Typed for Operation<R>
             Self::Cat(lhs, rhs)             => Ok(
                 GT::UInt(sum_width(ground(lhs)?.width(), ground(rhs)?.width())
             )),
-            Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(high
-                .or(t.width())
-                .and_then(|w| w.checked_sub(low.unwrap_or(1)))
-                .map(|w| w + 1)
-            )),
+            Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(match (*low, *high) {
+                (Some(l), Some(h)) => h.checked_sub(l).and_then(|w| w.checked_add(1)),
+                // head
+                (None,    Some(n)) => Some(n),
+                // tail
+                (Some(n), None)    => t.width().and_then(|w| w.checked_sub(n)),
+                (None,    None)    => t.width(),
+            })),
             Self::IncPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_add(*bits)),
                 p.and_then(|p| p.checked_add(*bits as SBits))
-- 
2.43.0


From 307631a9a47c89c4c2ce7470fb8c7219213ffebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 06/24] fix: do not make up a width when padding an operand of
 unknown width

The operand may turn out to be wider than the width it is padded to.
---
 src/expr/primitive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index cbf3aae..97d8c16 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -188,7 +188,8 @@ impl<R> types::Typed for Operation<R>
             Self::GEq(..)                   => Ok(GT::UInt(Some(1))),
             Self::Eq(..)                    => Ok(GT::UInt(Some(1))),
             Self::NEq(..)                   => Ok(GT::UInt(Some(1))),
-            Self::Pad(sub, bits)            => ground(sub).map(|t| t.with_width(max(t.width(), Some(*bits)))),
+            Self::Pad(sub, bits)            => ground(sub)
+                .map(|t| t.with_width(t.width().map(|w| max(w, *bits)))),
             Self::Cast(sub, target)         => ground(sub).map(|t| target.with_width(t.width())),
             Self::Shl(sub, bits)            => ground(sub)
                 .map(|t| t.with_width(t.width().and_then(|w| w.checked_add(*bits)))),
-- 
2.43.0


From 7c8e7a28061c98b1910cc7caee49992d07f61831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 07/24] fix: compute the type of precision operations correctly

The result of setp carried the precision of the operand rather than the one
which was set. Widths and precisions exceeding an i16 were wrapped silently.
---
 src/expr/primitive.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 97d8c16..f9a8ace 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -239,17 +239,16 @@ impl<R> types::Typed for Operation<R>
             })),
             Self::IncPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_add(*bits)),
-                p.and_then(|p| p.checked_add(*bits as SBits))
+                p.and_then(|p| (i32::from(p) + i32::from(*bits)).try_into().ok())
             )),
             Self::DecPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_sub(*bits)),
-                p.and_then(|p| p.checked_sub(*bits as SBits))
+                p.and_then(|p| (i32::from(p) - i32::from(*bits)).try_into().ok())
             )),
             Self::SetPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
-                w.and_then(|w| p.and_then(|p| (w as SBits).checked_sub(p)))
-                    .and_then(|w| w.checked_add(*bits))
-                    .and_then(|w| w.try_into().ok()),
-                p
+                w.and_then(|w| p.map(|p| i32::from(w) - i32::from(p)))
+                    .and_then(|w| (w + i32::from(*bits)).try_into().ok()),
+                Some(*bits)
             )),
         }
     }
-- 
2.43.0


From 5ba1587d78f5391d13969efb7e26d6e36466e6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 08/24] fix: expect the high bit first in bits operations

The FIRRTL specification defines the parameters of bits as (hi, lo). With
the bounds swapped, no width could be determined for bits operations found
in real-world sources.
---
 src/expr/parsers.rs   | 2 +-
 src/expr/primitive.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parsers.rs b/src/expr/parsers.rs
index 29981e1..a21f5b3 100644
--- a/src/expr/parsers.rs
+++ b/src/expr/parsers.rs
@@ -130,7 +130,7 @@ pub fn primitive_op<'i, R: super::Reference + Clone>(
         "cat"           => map(tuple((&sub, comma, &sub)), |(l, _, r)| PO::Cat(l, r))(input)?,
         "bits"          => map(
             tuple((&sub, comma, spaced(decimal), comma, spaced(decimal))),
-            |(e, _, l, _, h)| PO::Bits(e, Some(l), Some(h))
+            |(e, _, h, _, l)| PO::Bits(e, Some(l), Some(h))
         )(input)?,
         "head"          => map(
             tuple((&sub, comma, spaced(decimal))),
diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index f9a8ace..e7e2888 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -291,7 +291,7 @@ impl<R: Reference> fmt::Display for Operation<R> {
             Self::OrReduce(sub)                     => write!(f, "orr({})", sub),
             Self::XorReduce(sub)                    => write!(f, "xorr({})", sub),
             Self::Cat(lhs, rhs)                     => write!(f, "cat({}, {})", lhs, rhs),
-            Self::Bits(sub, Some(l), Some(h))       => write!(f, "bits({}, {}, {})", sub, l, h),
+            Self::Bits(sub, Some(l), Some(h))       => write!(f, "bits({}, {}, {})", sub, h, l),
             Self::Bits(sub, None, Some(high))       => write!(f, "head({}, {})", sub, high),
             Self::Bits(sub, Some(low), None)        => write!(f, "tail({}, {})", sub, low),
             Self::Bits(..)                          => Err(Default::default()),
-- 
2.43.0


From 2353269a17c8e1254b30290b5d761ebcfdb9bf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 09/24] fix: reject literals of unrepresentable width rather
 than panicking

---
 src/expr/parsers.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/expr/parsers.rs b/src/expr/parsers.rs
index a21f5b3..7ced3c5 100644
--- a/src/expr/parsers.rs
+++ b/src/expr/parsers.rs
@@ -26,22 +26,19 @@ pub fn expr<'i, R: super::Reference + Clone>(
     let sub = |i| map(spaced(|i| expr(reference, i)), Arc::new)(i);
 
     let (input, res) = alt((
-        map(
+        map_opt(
             tuple((kw("UInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
             |(_, width, _, value, _): (_, _, _, num_bigint::BigUint, _)| {
-                let width = width
-                    .or_else(|| value.bits().try_into().ok())
-                    .expect("Could not determine appropriate width");
-                E::UIntLiteral{value, width}
+                let width = width.or_else(|| value.bits().try_into().ok())?;
+                Some(E::UIntLiteral{value, width})
             }
         ),
-        map(
+        map_opt(
             tuple((kw("SInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
             |(_, width, _, value, _): (_, _, _, num_bigint::BigInt, _)| {
                 let width = width
-                    .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))
-                    .expect("Could not determine appropriate width");
-                E::SIntLiteral{value, width}
+                    .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))?;
+                Some(E::SIntLiteral{value, width})
             }
         ),
         map(
-- 
2.43.0


From dd9c1fa342fe421bfa3ee7d46741c4b6b9cbba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 10/24] fix: print the info of invalidate statements

---
 src/stmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stmt.rs b/src/stmt.rs
index ab78209..04e4470 100644
--- a/src/stmt.rs
+++ b/src/stmt.rs
@@ -154,7 +154,8 @@ impl DisplayIndented for Statement {
             Kind::Empty                             => writeln!(f, "{}skip{}", indent.lock(), info),
             Kind::Declaration(entity)               => display::EntityDecl(entity, info).fmt(indent, f),
             Kind::SimpleMemDecl(mem)                => writeln!(f, "{}{}{}", indent.lock(), mem, info),
-            Kind::Invalidate(expr)                  => writeln!(f, "{}{} is invalid", indent.lock(), expr),
+            Kind::Invalidate(expr)                  =>
+                writeln!(f, "{}{} is invalid{}", indent.lock(), expr, info),
             Kind::Attach(exprs)                     =>
                 writeln!(f, "{}attach({}){}", indent.lock(), CommaSeparated::from(exprs), info),
             Kind::Conditional{cond, when, r#else}   => {
-- 
2.43.0


From 3cd5a350338ff8b4e55dbe4991aae6404fb4cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 11/24] fix: do not accept empty identifiers and field names

---
 src/parsers.rs       | 4 ++--
 src/types/parsers.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 8320f33..4461d63 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -7,7 +7,7 @@ mod tests;
 
 
 use nom::Parser;
-use nom::bytes::complete::{tag, take_while};
+use nom::bytes::complete::{tag, take_while, take_while1};
 use nom::character::complete::{char as chr, satisfy, space0};
 use nom::combinator::{not, peek, value};
 use nom::error::context;
@@ -29,7 +29,7 @@ pub type Error<'i> = nom::error::VerboseError<&'i str>;
 pub fn identifier(input: &str) -> IResult<&str> {
     context(
         "expected identifier",
-        preceded(peek(not(satisfy(char::is_numeric))), take_while(is_identifier_char))
+        preceded(peek(not(satisfy(char::is_numeric))), take_while1(is_identifier_char))
     )(input)
 }
 
diff --git a/src/types/parsers.rs b/src/types/parsers.rs
index 4921ae1..8911c6f 100644
--- a/src/types/parsers.rs
+++ b/src/types/parsers.rs
@@ -5,7 +5,7 @@
 use std::sync::Arc;
 
 use nom::branch::alt;
-use nom::bytes::complete::take_while;
+use nom::bytes::complete::take_while1;
 use nom::combinator::{map, opt, value};
 use nom::error::context;
 use nom::multi::{fold_many0, separated_list0};
@@ -70,6 +70,6 @@ pub fn r#type(input: &str) -> IResult<super::Type> {
 ///
 /// The rules for field names are somehow more relaxed than for identifiers.
 pub fn field_name(input: &str) -> IResult<&str> {
-    context("expected field name", take_while(is_identifier_char))(input)
+    context("expected field name", take_while1(is_identifier_char))(input)
 }
 
-- 
2.43.0


From 8a5743cfce13dbee1c43168c96bff92f638398de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 12/24] fix: parse bundle fields named flip

---
 src/types/parsers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/parsers.rs b/src/types/parsers.rs
index 8911c6f..06924e9 100644
--- a/src/types/parsers.rs
+++ b/src/types/parsers.rs
@@ -6,10 +6,10 @@ use std::sync::Arc;
 
 use nom::branch::alt;
 use nom::bytes::complete::take_while1;
-use nom::combinator::{map, opt, value};
+use nom::combinator::{map, not, opt, value};
 use nom::error::context;
 use nom::multi::{fold_many0, separated_list0};
-use nom::sequence::{preceded, tuple};
+use nom::sequence::{preceded, terminated, tuple};
 
 use crate::parsers::{IResult, decimal, is_identifier_char, kw, op, spaced};
 
@@ -45,7 +45,7 @@ pub fn r#type(input: &str) -> IResult<super::Type> {
     use super::Type as T;
 
     let field = map(
-        tuple((opt(kw("flip")), spaced(field_name), spaced(op(":")), spaced(r#type))),
+        tuple((opt(terminated(kw("flip"), not(spaced(op(":"))))), spaced(field_name), spaced(op(":")), spaced(r#type))),
         |(o, n, _, t)| super::BundleField::new(n, t)
             .with_orientation(o.map(|_| super::Orientation::Flipped).unwrap_or_default())
     );
-- 
2.43.0


From 6b57c1daabc17101e1c1835fd39956e488656bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 13/24] fix: do not require a space after the arrow of a memory
 attribute

---
 src/memory/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/parsers.rs b/src/memory/parsers.rs
index b051fb7..c02606b 100644
--- a/src/memory/parsers.rs
+++ b/src/memory/parsers.rs
@@ -186,7 +186,7 @@ fn entry<'i>(input: &'i str) -> IResult<'i, Entry> {
 fn arrow<'i>(input: &'i str) -> IResult<'i, ()> {
     use nom::Parser;
 
-    spaced(kw("=>")).parse(input)
+    spaced(op("=>")).parse(input)
 }
 
 fn ruw<'i>(input: &'i str) -> IResult<'i, super::ReadUnderWrite> {
-- 
2.43.0


From 77818cc11369f59448aba75999916da20c0db7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 14/24] fix: parse empty format strings

---
 src/stmt/parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 8be2785..231874b 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -9,7 +9,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{anychar, char as chr};
 use nom::combinator::{iterator, map, opt, value, verify};
-use nom::multi::{many1, separated_list1};
+use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{preceded, tuple};
 
 use crate::expr::parsers::expr;
@@ -116,7 +116,7 @@ pub fn stmt<'i>(
                 comma,
                 spaced(|i| {
                     let (i, fmt_str) = map(
-                        tuple((chr('"'), many1(fmt_string_part), chr('"'))),
+                        tuple((chr('"'), many0(fmt_string_part), chr('"'))),
                         |(_, p, ..)| p
                     )(i)?;
                     let mut exprs = iterator(i, preceded(spaced(comma), spaced(&expr)));
-- 
2.43.0


From 886c149e6f6a6ac8702ddb1d993c83c5e98553ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 15/24] fix: compute the maximum width of dynamic left shifts

---
 src/expr/primitive.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index e7e2888..0e24d72 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -206,8 +206,7 @@ impl<R> types::Typed for Operation<R>
                 .with_width(match (t.width(), ground(bits)?.width()) {
                     (Some(ws), Some(wb)) => (1 as UBits)
                         .checked_shl(wb.into())
-                        .and_then(|w| w.checked_add(ws))
-                        .map(|w| w - 1),
+                        .and_then(|w| (w - 1).checked_add(ws)),
                     _ => None,
                 })
             )),
-- 
2.43.0


From d1b6f909da39f6a80c690ce98f06b44be38cbb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 16/24] fix: reject printf statements lacking arguments

---
 src/stmt/parsers.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 231874b..50c9ced 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -51,6 +51,10 @@ pub fn stmt<'i>(
     input: &'i str,
     indentation: &'_ mut Indentation,
 ) -> IResult<'i, super::Statement> {
+    use nom::error::{ErrorKind as EK, ParseError};
+
+    use crate::parsers::Error;
+
     use super::{Kind, Statement as S};
     use print::PrintElement as P;
 
@@ -120,11 +124,12 @@ pub fn stmt<'i>(
                         |(_, p, ..)| p
                     )(i)?;
                     let mut exprs = iterator(i, preceded(spaced(comma), spaced(&expr)));
-                    let ps: Vec<_> = fmt_str.into_iter().filter_map(|e| match e {
+                    let ps: Option<Vec<_>> = fmt_str.into_iter().map(|e| match e {
                         FmtStrPart::Literal(s) => Some(P::Literal(s)),
                         FmtStrPart::FormatSpec(f) => (&mut exprs).next().map(|e| P::Value(e, f)),
                     }).collect();
-                    exprs.finish().map(|(i, _)| (i, ps))
+                    let (i, _) = exprs.finish()?;
+                    ps.map(|ps| (i, ps)).ok_or_else(|| nom::Err::Error(Error::from_error_kind(i, EK::Many1)))
                 }),
                 rp,
                 optional_name,
-- 
2.43.0


From e15c65cbd4dc397c897d00b4d323bb95b8eb24e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 17/24] fix: print integral double parameters with a decimal
 point

---
 src/module.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/module.rs b/src/module.rs
index b221804..13a77c1 100644
--- a/src/module.rs
+++ b/src/module.rs
@@ -308,6 +308,9 @@ impl fmt::Display for ParamValue {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
             Self::Int(v)    => fmt::Display::fmt(v, f),
+            // We need to retain the decimal point, which tells a double from an
+            // integer.
+            Self::Double(v) if v.fract() == 0.0 => write!(f, "{:.1}", v),
             Self::Double(v) => fmt::Display::fmt(v, f),
             Self::String(v) => {
                 fmt::Display::fmt(&'"', f)?;
-- 
2.43.0


From e520706ea31c1225df6bb85ab86b9b7f474b00bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 18/24] fix: reject parameter values exceeding the range of a
 double

---
 src/module/parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/parsers.rs b/src/module/parsers.rs
index 4f817d1..9b29a00 100644
--- a/src/module/parsers.rs
+++ b/src/module/parsers.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 use nom::branch::alt;
 use nom::character::complete::char as chr;
-use nom::combinator::{iterator, map, value};
+use nom::combinator::{iterator, map, value, verify};
 use nom::multi::many0;
 use nom::sequence::tuple;
 
@@ -164,7 +164,7 @@ pub fn param_value(input: &str) -> IResult<super::ParamValue> {
     use super::ParamValue as PV;
 
     alt((
-        map(float, PV::Double),
+        map(verify(float, |v: &f64| v.is_finite()), PV::Double),
         map(decimal, PV::Int),
         map(
             tuple((chr('"'), |i| unquoted_string(i, &['\n', '\t', '"']), chr('"'))),
-- 
2.43.0


From 5c6060a2f144936d330e347eb4613d1f1234709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 19/24] fix: print parameters in a deterministic order

---
 src/module.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/module.rs b/src/module.rs
index 13a77c1..80694a1 100644
--- a/src/module.rs
+++ b/src/module.rs
@@ -110,8 +110,11 @@ impl DisplayIndented for Module {
                 .try_for_each(|s| DisplayIndented::fmt(s, &mut indentation, f)),
             Kind::External{defname, params} => {
                 defname.as_ref().map(|n| writeln!(f, "{}defname = {}", indentation.lock(), n)).transpose()?;
+                // The order of a map's items is arbitrary, but our output isn't.
+                let mut params: Vec<_> = params.iter().collect();
+                params.sort_by(|(l, _), (r, _)| l.cmp(r));
                 params
-                    .iter()
+                    .into_iter()
                     .try_for_each(|(k, v)| writeln!(f, "{}parameter {} = {}", indentation.lock(), k, v))
             },
         }
-- 
2.43.0


From 34735ae679770c7917ce0ab0759a1f8c127f95f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 20/24] fix: do not ignore errors following the top module

---
 src/circuit.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 6d979c4..523eb0e 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -158,15 +158,10 @@ where I: Iterator<Item = Result<Arc<Module>, E>>,
 
     /// Try to create the requested circuit, consuming the iterator
     pub fn into_circuit(mut self) -> Result<Circuit, ParseError> {
-        let info = self.info;
-        match self.top_module {
-            TopState::Name(n)   => self
-                .modules
-                .find(|m| m.as_ref().ok().map(|m| m.name_ref() == n).unwrap_or(true))
-                .map(|r| r.map_err(Into::into))
-                .unwrap_or_else(|| Err("top module not found".to_owned().into())),
-            TopState::Module(m) => Ok(m),
-        }.map(|m| Circuit::new(m).with_info(info))
+        // Even if we already encountered the top module, the remaining input may
+        // still contain an error.
+        self.by_ref().try_for_each(|r| r.map(|_| ())).map_err(Into::into)?;
+        self.circuit().ok_or_else(|| "top module not found".to_owned().into())
     }
 }
 
-- 
2.43.0


From 26cec16f5740eedee954831489441aef1290e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 21/24] fix: do not yield modules truncated at a malformed line

---
 src/module/parsers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/module/parsers.rs b/src/module/parsers.rs
index 9b29a00..6bbac1c 100644
--- a/src/module/parsers.rs
+++ b/src/module/parsers.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 use nom::branch::alt;
 use nom::character::complete::char as chr;
-use nom::combinator::{iterator, map, value, verify};
+use nom::combinator::{eof, iterator, map, peek, value, verify};
 use nom::multi::many0;
 use nom::sequence::tuple;
 
@@ -104,6 +104,7 @@ pub fn module<'i>(
         |(_, kind, name, _, info, ..)| (name.into(), kind, info)
     )(input)?;
 
+    let outer = indentation.clone();
     let mut indentation = indentation.sub();
 
     let (input, ports) = many0(
@@ -146,6 +147,9 @@ pub fn module<'i>(
         },
     };
 
+    // Lines which are not part of this module must belong to another one
+    let (input, _) = alt((value((), eof), value((), peek(outer.into_parser()))))(input)?;
+
     Ok((input, super::Module::new(name, ports, kind).with_info(info)))
 }
 
-- 
2.43.0


From 6f4a323f99f6ab5cc74fed00785799011599df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 22/24] fix: dshl of a zero width operand by 16 bits has width
 65535

---
 src/expr/primitive.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 0e24d72..08c0bcd 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: Apache-2.0
 //! Primitive operations
 
+use std::convert::TryFrom;
 use std::fmt;
 use std::sync::Arc;
 
@@ -204,9 +205,10 @@ impl<R> types::Typed for Operation<R>
             }),
             Self::DShl(sub, bits)           => ground(sub).and_then(|t| Ok(t
                 .with_width(match (t.width(), ground(bits)?.width()) {
-                    (Some(ws), Some(wb)) => (1 as UBits)
+                    (Some(ws), Some(wb)) => 1u32
                         .checked_shl(wb.into())
-                        .and_then(|w| (w - 1).checked_add(ws)),
+                        .and_then(|w| (w - 1).checked_add(ws.into()))
+                        .and_then(|w| UBits::try_from(w).ok()),
                     _ => None,
                 })
             )),
-- 
2.43.0


From 9afbb8a47562557204911e775f7e343c3b65c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 23/24] fix: reject memories stating an attribute twice

---
 src/memory/parsers.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/memory/parsers.rs b/src/memory/parsers.rs
index c02606b..7970b8b 100644
--- a/src/memory/parsers.rs
+++ b/src/memory/parsers.rs
@@ -36,21 +36,25 @@ pub fn memory<'i>(
     let mut read_latency: Option<mem::Latency> = Default::default();
     let mut write_latency: Option<mem::Latency> = Default::default();
     let mut ports: Vec<mem::Port> = Default::default();
-    let mut ruw: super::ReadUnderWrite = Default::default();
+    let mut ruw: Option<super::ReadUnderWrite> = Default::default();
+    let mut duplicate = false;
     (&mut entries).for_each(|e| match e {
-        Entry::DataType(t)      => data_type = Some(t),
-        Entry::Depth(v)         => depth = Some(v),
+        Entry::DataType(t)      => duplicate |= data_type.replace(t).is_some(),
+        Entry::Depth(v)         => duplicate |= depth.replace(v).is_some(),
         Entry::Port(p)          => ports.push(p),
-        Entry::ReadLatency(v)   => read_latency = Some(v),
-        Entry::WriteLatency(v)  => write_latency = Some(v),
-        Entry::RUW(v)           => ruw = v,
+        Entry::ReadLatency(v)   => duplicate |= read_latency.replace(v).is_some(),
+        Entry::WriteLatency(v)  => duplicate |= write_latency.replace(v).is_some(),
+        Entry::RUW(v)           => duplicate |= ruw.replace(v).is_some(),
     });
+    if duplicate {
+        return Err(nom::Err::Error(parsers::Error::from_error_kind(input, EK::Permutation)))
+    }
 
     let mut res = mem::Memory::new(
         name,
         data_type.ok_or_else(|| nom::Err::Error(parsers::Error::from_error_kind(input, EK::Permutation)))?,
         depth.ok_or_else(|| nom::Err::Error(parsers::Error::from_error_kind(input, EK::Permutation)))?,
-    ).with_read_under_write(ruw);
+    ).with_read_under_write(ruw.unwrap_or_default());
 
     res.add_ports(ports);
     if let Some(v) = read_latency {
-- 
2.43.0


From 9e6308a4dba7414eee2bcea115c3dfe35394437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 24/24] fix: reject parameters stated twice

---
 src/module/parsers.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/module/parsers.rs b/src/module/parsers.rs
index 6bbac1c..a804d41 100644
--- a/src/module/parsers.rs
+++ b/src/module/parsers.rs
@@ -2,11 +2,12 @@
 // SPDX-License-Identifier: Apache-2.0
 //! Parsers for modules and related items
 
+use std::collections::hash_map::Entry;
 use std::sync::Arc;
 
 use nom::branch::alt;
 use nom::character::complete::char as chr;
-use nom::combinator::{eof, iterator, map, peek, value, verify};
+use nom::combinator::{eof, iterator, map, map_opt, peek, value, verify};
 use nom::multi::many0;
 use nom::sequence::tuple;
 
@@ -128,9 +129,10 @@ pub fn module<'i>(
             )(input)?;
             *defname = n;
 
+            // A parameter stated a second time is not part of the module
             let mut param_iter = iterator(
                 input,
-                map(
+                map_opt(
                     tuple((
                         indentation.parser(),
                         kw("parameter"),
@@ -139,10 +141,13 @@ pub fn module<'i>(
                         spaced(param_value),
                         le,
                     )),
-                    |(.., k, _, v, _)| (k.into(), v)
+                    |(.., k, _, v, _)| match params.entry(k.into()) {
+                        Entry::Vacant(e) => { e.insert(v); Some(()) },
+                        Entry::Occupied(_) => None,
+                    }
                 ),
             );
-            params.extend(&mut param_iter);
+            (&mut param_iter).for_each(drop);
             param_iter.finish()?.0
         },
     };
-- 
2.43.0

