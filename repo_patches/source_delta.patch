From c1885da28d1bda1fe16ea34277951407919adc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:15 +0000
Subject: [PATCH 1/2] fix: no time columns for a range that ends before it
 starts (DateRule never terminated)

---
 src/common/src/query.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/src/query.rs b/src/common/src/query.rs
index 0a24735..0926fc9 100644
--- a/src/common/src/query.rs
+++ b/src/common/src/query.rs
@@ -468,6 +468,10 @@ pub fn time_columns(
 ) -> Vec<String> {
     let from = date_trunc(granularity, from).unwrap();
     let to = date_trunc(granularity, to).unwrap();
+    // DateRule never ends if its end precedes its start
+    if to < from {
+        return vec![];
+    }
     let rule = match granularity {
         TimeIntervalUnit::Hour => DateRule::hourly(from),
         TimeIntervalUnit::Day => DateRule::daily(from),
-- 
2.43.0


From a65a0f6863253c352ea031764c6ecacc70511a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:10 +0000
Subject: [PATCH 2/2] fix: keep millisecond times as milliseconds when scalar
 values are converted

---
 src/common/src/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/src/scalar.rs b/src/common/src/scalar.rs
index 7b1986c..581602a 100644
--- a/src/common/src/scalar.rs
+++ b/src/common/src/scalar.rs
@@ -74,7 +74,7 @@ impl From<ScalarValueRef> for ScalarValue {
             ScalarValueRef::IntervalYearMonth(v) => ScalarValue::IntervalYearMonth(v),
             ScalarValueRef::FixedSizeBinary(a, b) => ScalarValue::FixedSizeBinary(a, b),
             ScalarValueRef::Time32Second(v) => ScalarValue::Time32Second(v),
-            ScalarValueRef::Time32Millisecond(v) => ScalarValue::Time32Second(v),
+            ScalarValueRef::Time32Millisecond(v) => ScalarValue::Time32Millisecond(v),
             ScalarValueRef::Time64Microsecond(v) => ScalarValue::Time64Microsecond(v),
             ScalarValueRef::Time64Nanosecond(v) => ScalarValue::Time64Nanosecond(v),
             _ => unimplemented!(),
@@ -111,7 +111,7 @@ impl From<&ScalarValue> for ScalarValueRef {
             ScalarValue::IntervalYearMonth(v) => ScalarValueRef::IntervalYearMonth(v),
             ScalarValue::FixedSizeBinary(a, b) => ScalarValueRef::FixedSizeBinary(a, b),
             ScalarValue::Time32Second(v) => ScalarValueRef::Time32Second(v),
-            ScalarValue::Time32Millisecond(v) => ScalarValueRef::Time32Second(v),
+            ScalarValue::Time32Millisecond(v) => ScalarValueRef::Time32Millisecond(v),
             ScalarValue::Time64Microsecond(v) => ScalarValueRef::Time64Microsecond(v),
             ScalarValue::Time64Nanosecond(v) => ScalarValueRef::Time64Nanosecond(v),
             _ => unimplemented!(),
-- 
2.43.0

