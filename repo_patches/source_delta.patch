From 58882696740145b55871de7b3d08845f21a1d371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 1/8] fix: hash the right-aligned slice the analysis chose in
 RightSliceMap

The range counts from the end of the key, so the slice runs from
len - end to len - start. It was passed the other way around, which made
every non-empty range an inverted (and unchecked) slice. Keys shorter
than the range get the fallback hash code everywhere, also when the
table is filled.
---
 .../src/specialized_maps/right_slice_map.rs          | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index 889db70..cf2ccf0 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -34,7 +34,7 @@ where
         let codes = payload.iter().map(|entry| {
             let key = &entry.0;
             if key.len() >= range.end {
-                key.hash(&bh, key.len() - range.start..key.len() - range.end)
+                key.hash(&bh, key.len() - range.end..key.len() - range.start)
             } else {
                 0
             }
@@ -43,7 +43,11 @@ where
         let code_analysis = analyze_hash_codes(codes);
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, k.len() - range.start..k.len() - range.end)
+                if k.len() >= range.end {
+                    k.hash(&bh, k.len() - range.end..k.len() - range.start)
+                } else {
+                    0
+                }
             }),
             bh,
             range,
@@ -76,10 +80,10 @@ where
     where
         Q: SliceHash + Len,
     {
-        let hash_code = if key.len() >= self.range.start {
+        let hash_code = if key.len() >= self.range.end {
             key.hash(
                 &self.bh,
-                key.len() - self.range.start..key.len() - self.range.end,
+                key.len() - self.range.end..key.len() - self.range.start,
             )
         } else {
             0
-- 
2.43.0


From 970a5068cc0270fdb00c2d490ed72dc05ec70888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:50 +0000
Subject: [PATCH 2/8] fix: keep right-aligned subslices in bounds in the slice
 key analyzer

The subslice ended subslice_index - subslice_len + 1 elements past the
position that was meant, so analysis panicked for subslices of more than
one element.
---
 frozen-collections-core/src/analyzers/slice_key_analyzer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
index 674ab2d..2ba0b0b 100644
--- a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
@@ -194,8 +194,8 @@ where
         let sub = if left_justified {
             &s[subslice_index..subslice_index + subslice_len]
         } else {
-            let start = s.len() - subslice_index - 1;
-            &s[start..start + subslice_len]
+            let end = s.len() - subslice_index;
+            &s[end - subslice_len..end]
         };
 
         if !set.insert(bh.hash_one(sub)) {
-- 
2.43.0


From 9ad71ad3f2b2afb38a023e20a593862ae9950a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:50 +0000
Subject: [PATCH 3/8] fix: give keys shorter than the slice range their
 fallback hash code when filling LeftSliceMap

Analysis and lookups use hash code 0 for them; filling the table hashed
an out-of-bounds slice instead, unchecked.
---
 .../src/specialized_maps/left_slice_map.rs                  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_maps/left_slice_map.rs b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
index bd4a22e..98e8e61 100644
--- a/frozen-collections-core/src/specialized_maps/left_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
@@ -43,7 +43,11 @@ where
 
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, range.clone())
+                if k.len() >= range.end {
+                    k.hash(&bh, range.clone())
+                } else {
+                    0
+                }
             }),
             bh,
             range,
-- 
2.43.0


From 91a14e7522dd181b216d09a9ad4e88d961c439ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:50 +0000
Subject: [PATCH 4/8] fix: handle empty, wide and repeated key ranges in
 IntegerRangeMap

Looking up 0 in an empty map panicked, the distance between the ends of
a signed range could overflow when building and when looking up, and
keys with repetitions and gaps were taken for a continuous range.
---
 .../src/specialized_maps/integer_range_map.rs | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index e30533b..3f45788 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -17,6 +17,19 @@ pub struct IntegerRangeMap<K, V> {
     pub(crate) entries: Box<[(K, V)]>,
 }
 
+/// The distance from `min` to `key`, which isn't smaller.
+#[inline]
+fn distance<Q: PrimInt>(min: Q, key: Q) -> Option<usize> {
+    key.checked_sub(&min).map_or_else(
+        || {
+            // only when min is negative and key isn't
+            let below_zero = (Q::zero() - (min + Q::one())).to_usize()?.checked_add(1)?;
+            key.to_usize()?.checked_add(below_zero)
+        },
+        |d| d.to_usize(),
+    )
+}
+
 impl<K, V> IntegerRangeMap<K, V>
 where
     K: PrimInt,
@@ -39,9 +52,10 @@ where
         let min = payload[0].0;
         let max = payload[payload.len() - 1].0;
 
-        assert_eq!(
-            max.sub(min).to_usize().unwrap(),
-            payload.len() - 1,
+        assert!(
+            payload
+                .windows(2)
+                .all(|w| w[0].0.checked_add(&K::one()) == Some(w[1].0)),
             "IntegerRangeMap requires that the map keys be in a continuous range"
         );
 
@@ -62,8 +76,8 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
-            Some(&self.entries[index].1)
+            let index = distance(*self.min.borrow(), *key)?;
+            Some(&self.entries.get(index)?.1)
         } else {
             None
         }
@@ -77,8 +91,8 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
-            Some(&mut self.entries[index].1)
+            let index = distance(*self.min.borrow(), *key)?;
+            Some(&mut self.entries.get_mut(index)?.1)
         } else {
             None
         }
@@ -119,8 +133,9 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
-            Some((&self.entries[index].0, &self.entries[index].1))
+            let index = distance(*self.min.borrow(), *key)?;
+            let entry = self.entries.get(index)?;
+            Some((&entry.0, &entry.1))
         } else {
             None
         }
-- 
2.43.0


From 4dbe0b6696d934e9e18bce88f8a541a04ebe0b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:50 +0000
Subject: [PATCH 5/8] fix: don't overflow the key type when analyzing integer
 keys

Neither the number of keys nor the distance between the smallest and
the largest has to fit in the key type.
---
 frozen-collections-core/src/analyzers/int_key_analyzer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/int_key_analyzer.rs b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
index 5c5774e..378a374 100644
--- a/frozen-collections-core/src/analyzers/int_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
@@ -18,16 +18,16 @@ where
 {
     let mut min = K::max_value();
     let mut max = K::min_value();
-    let mut count = K::zero();
+    let mut count: usize = 0;
     for key in keys {
         min = min.min(key);
         max = max.max(key);
-        count = count + K::one();
+        count += 1;
     }
 
-    if count == K::zero() {
+    if count == 0 {
         IntKeyAnalysisResult::Normal
-    } else if max.sub(min) == count - K::one() {
+    } else if max.checked_sub(&min).and_then(|d| d.to_usize()) == Some(count - 1) {
         IntKeyAnalysisResult::Range
     } else {
         IntKeyAnalysisResult::Normal
-- 
2.43.0


From 22a3e759947e864cfe5b4026450e203ee66bd11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:50 +0000
Subject: [PATCH 6/8] fix: count the remaining items of a set iterator

len() already excludes the items that were consumed.
---
 frozen-collections-core/src/specialized_sets/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 96c2045..678c478 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -37,7 +37,7 @@ impl<'a, T> Iterator for Iter<'a, T> {
     where
         Self: Sized,
     {
-        self.len() - self.index
+        self.len()
     }
 }
 
-- 
2.43.0


From bfc06499278f51983f863c60eaad5e5cde9dad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:50 +0000
Subject: [PATCH 7/8] fix: take consumed items into account in Union::size_hint

The lower bound stayed at the size of the first set while the iterator
advanced.
---
 .../src/specialized_sets/iterators.rs           | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 678c478..18651f6 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -182,7 +182,22 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.s1.len(), self.s1.len().checked_add(self.s2.len()))
+        let (lower1, upper1) = self.s1_iter.size_hint();
+        let (lower2, upper2) = self.s2_iter.size_hint();
+
+        // everything left in the larger set is certain to be returned
+        let lower = if self.s1.len() > self.s2.len() {
+            lower1
+        } else {
+            lower2
+        };
+
+        let upper = match (upper1, upper2) {
+            (Some(upper1), Some(upper2)) => upper1.checked_add(upper2),
+            _ => None,
+        };
+
+        (lower, upper)
     }
 }
 
-- 
2.43.0


From cae71684aecd828af94c2c3d04b4940d34683461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:56 +0000
Subject: [PATCH 8/8] fix: never hand out two mutable references to one value
 from get_many_mut

The keys are compared with each other first, but keys with inconsistent
equality or hashing can still lead to the same entry twice, and a logic
error in a key must not result in undefined behavior.
---
 frozen-collections-core/src/facades/frozen_map.rs     | 11 ++++++++++-
 .../src/specialized_maps/common_map.rs                | 11 ++++++++++-
 .../src/specialized_maps/integer_map.rs               | 11 ++++++++++-
 .../src/specialized_maps/integer_range_map.rs         | 11 ++++++++++-
 .../src/specialized_maps/left_slice_map.rs            | 11 ++++++++++-
 .../src/specialized_maps/length_map.rs                | 11 ++++++++++-
 .../src/specialized_maps/right_slice_map.rs           | 11 ++++++++++-
 .../src/specialized_maps/scanning_map.rs              | 11 ++++++++++-
 8 files changed, 80 insertions(+), 8 deletions(-)

diff --git a/frozen-collections-core/src/facades/frozen_map.rs b/frozen-collections-core/src/facades/frozen_map.rs
index 2d080a4..7eb5495 100644
--- a/frozen-collections-core/src/facades/frozen_map.rs
+++ b/frozen-collections-core/src/facades/frozen_map.rs
@@ -505,7 +505,16 @@ where
             let p = result.as_mut_ptr();
 
             for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+                let value: &V = self.get(key)?;
+
+                // keys with inconsistent equality can lead to the same entry more than once
+                for j in 0..i {
+                    if std::ptr::eq::<V>(&**(*p).get_unchecked(j), value) {
+                        return None;
+                    }
+                }
+
+                *(*p).get_unchecked_mut(i) = transmute(value);
             }
 
             Some(result.assume_init())
diff --git a/frozen-collections-core/src/specialized_maps/common_map.rs b/frozen-collections-core/src/specialized_maps/common_map.rs
index d638b71..7cf94fb 100644
--- a/frozen-collections-core/src/specialized_maps/common_map.rs
+++ b/frozen-collections-core/src/specialized_maps/common_map.rs
@@ -137,7 +137,16 @@ where
             let p = result.as_mut_ptr();
 
             for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+                let value: &V = self.get(key)?;
+
+                // keys with inconsistent equality can lead to the same entry more than once
+                for j in 0..i {
+                    if std::ptr::eq::<V>(&**(*p).get_unchecked(j), value) {
+                        return None;
+                    }
+                }
+
+                *(*p).get_unchecked_mut(i) = transmute(value);
             }
 
             Some(result.assume_init())
diff --git a/frozen-collections-core/src/specialized_maps/integer_map.rs b/frozen-collections-core/src/specialized_maps/integer_map.rs
index 7042e39..ae8caac 100644
--- a/frozen-collections-core/src/specialized_maps/integer_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_map.rs
@@ -102,7 +102,16 @@ where
             let p = result.as_mut_ptr();
 
             for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+                let value: &V = self.get(key)?;
+
+                // keys with inconsistent equality can lead to the same entry more than once
+                for j in 0..i {
+                    if std::ptr::eq::<V>(&**(*p).get_unchecked(j), value) {
+                        return None;
+                    }
+                }
+
+                *(*p).get_unchecked_mut(i) = transmute(value);
             }
 
             Some(result.assume_init())
diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index 3f45788..3471855 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -118,7 +118,16 @@ impl<K, V> IntegerRangeMap<K, V> {
             let p = result.as_mut_ptr();
 
             for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+                let value: &V = self.get(key)?;
+
+                // keys with inconsistent equality can lead to the same entry more than once
+                for j in 0..i {
+                    if std::ptr::eq::<V>(&**(*p).get_unchecked(j), value) {
+                        return None;
+                    }
+                }
+
+                *(*p).get_unchecked_mut(i) = transmute(value);
             }
 
             Some(result.assume_init())
diff --git a/frozen-collections-core/src/specialized_maps/left_slice_map.rs b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
index 98e8e61..765876e 100644
--- a/frozen-collections-core/src/specialized_maps/left_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
@@ -163,7 +163,16 @@ where
             let p = result.as_mut_ptr();
 
             for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+                let value: &V = self.get(key)?;
+
+                // keys with inconsistent equality can lead to the same entry more than once
+                for j in 0..i {
+                    if std::ptr::eq::<V>(&**(*p).get_unchecked(j), value) {
+                        return None;
+                    }
+                }
+
+                *(*p).get_unchecked_mut(i) = transmute(value);
             }
 
             Some(result.assume_init())
diff --git a/frozen-collections-core/src/specialized_maps/length_map.rs b/frozen-collections-core/src/specialized_maps/length_map.rs
index 5718997..d0b62cb 100644
--- a/frozen-collections-core/src/specialized_maps/length_map.rs
+++ b/frozen-collections-core/src/specialized_maps/length_map.rs
@@ -122,7 +122,16 @@ where
             let p = result.as_mut_ptr();
 
             for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+                let value: &V = self.get(key)?;
+
+                // keys with inconsistent equality can lead to the same entry more than once
+                for j in 0..i {
+                    if std::ptr::eq::<V>(&**(*p).get_unchecked(j), value) {
+                        return None;
+                    }
+                }
+
+                *(*p).get_unchecked_mut(i) = transmute(value);
             }
 
             Some(result.assume_init())
diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index cf2ccf0..dc0f914 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -166,7 +166,16 @@ where
             let p = result.as_mut_ptr();
 
             for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+                let value: &V = self.get(key)?;
+
+                // keys with inconsistent equality can lead to the same entry more than once
+                for j in 0..i {
+                    if std::ptr::eq::<V>(&**(*p).get_unchecked(j), value) {
+                        return None;
+                    }
+                }
+
+                *(*p).get_unchecked_mut(i) = transmute(value);
             }
 
             Some(result.assume_init())
diff --git a/frozen-collections-core/src/specialized_maps/scanning_map.rs b/frozen-collections-core/src/specialized_maps/scanning_map.rs
index b09d24c..d6cb491 100644
--- a/frozen-collections-core/src/specialized_maps/scanning_map.rs
+++ b/frozen-collections-core/src/specialized_maps/scanning_map.rs
@@ -94,7 +94,16 @@ impl<K, V> ScanningMap<K, V> {
             let p = result.as_mut_ptr();
 
             for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+                let value: &V = self.get(key)?;
+
+                // keys with inconsistent equality can lead to the same entry more than once
+                for j in 0..i {
+                    if std::ptr::eq::<V>(&**(*p).get_unchecked(j), value) {
+                        return None;
+                    }
+                }
+
+                *(*p).get_unchecked_mut(i) = transmute(value);
             }
 
             Some(result.assume_init())
-- 
2.43.0

