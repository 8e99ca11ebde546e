From d1614df447f5a83aed75465217cfdc44afdd1ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 01/11] fix: looping the empty language zero times gives
 epsilon

mk_loop rewrote empty^[i, j] to empty for every range, so (re.* re.none),
(re.opt re.none) and ((_ re.loop 0 j) re.none) denoted the empty language
instead of the language that contains just the empty string.
---
 src/regular_expressions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/regular_expressions.rs b/src/regular_expressions.rs
index 02a5b4f..4092a31 100644
--- a/src/regular_expressions.rs
+++ b/src/regular_expressions.rs
@@ -1355,7 +1355,9 @@ impl ReManager {
             e
         } else {
             match &e.expr {
-                // empty ^ [i, j] --> empty
+                // empty ^ [0, j] --> epsilon
+                BaseRegLan::Empty if range.start() == 0 => self.epsilon,
+                // empty ^ [i, j] --> empty if i > 0
                 BaseRegLan::Empty => self.empty,
                 // epsilon ^ [i, j] --> epsilon
                 BaseRegLan::Epsilon => self.epsilon,
-- 
2.43.0


From bc967e3c7674b346f92d682a67bad68b7168d25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 02/11] fix: interval_cover compares with the start of the next
 interval

A set located after interval i that overlaps interval i+1 without reaching its
end was reported as DisjointFromAll (so class_of_set and set_derivative treated
it as part of the complementary class).
---
 src/character_sets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/character_sets.rs b/src/character_sets.rs
index d7093f0..67801b1 100644
--- a/src/character_sets.rs
+++ b/src/character_sets.rs
@@ -935,7 +935,7 @@ impl CharPartition {
             }
         } else {
             // note: we know i < p.len() <= MAX_CHAR so i+1 can't overflow here
-            let next_ai = self.end(i + 1);
+            let next_ai = self.start(i + 1);
             if b < next_ai {
                 // a_i <= b_i < a <= b < a_{i+1}
                 CoverResult::DisjointFromAll
-- 
2.43.0


From 483c8cac957ce30d95dcf12e1913048541123c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 03/11] fix: str_indexof finds the empty pattern at the end of
 the string

SMT-LIB 2.6 requires str.indexof(s, "", |s|) = |s|; the index guard rejected
i = |s| although it is a valid start position.
---
 src/smt_strings.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 988370b..0afa77d 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -760,9 +760,9 @@ pub fn str_contains(s1: &SmtString, s2: &SmtString) -> bool {
 ///
 /// Index of the first occurrence of s2 in s1, starting from index i
 ///
-/// - If 0 <= i < s1.len and s2 occurs in s1[i ..] then return the index j >= i
+/// - If 0 <= i <= s1.len and s2 occurs in s1[i ..] then return the index j >= i
 ///   of the first occurrence of s2 in s1[i ..].
-/// - Return -1 if i < 0 or i >= s1.len or s2 does not occur in s1[i ..]
+/// - Return -1 if i < 0 or i > s1.len or s2 does not occur in s1[i ..]
 ///
 /// # Examples
 /// ```
@@ -779,7 +779,7 @@ pub fn str_contains(s1: &SmtString, s2: &SmtString) -> bool {
 /// ```
 ///
 pub fn str_indexof(s1: &SmtString, s2: &SmtString, i: i32) -> i32 {
-    if i < 0 || i >= s1.len() as i32 {
+    if i < 0 || i > s1.len() as i32 {
         -1
     } else {
         match find_sub_vector(&s2.s, &s1.s, i as usize) {
-- 
2.43.0


From 846304fc532a8a5071b561e12a2e4d820ddf4769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 04/11] fix: escape backslashes when an SmtString is printed

The four-character string '\', 'u', '{', ... printed as a literal that reads
back as an escape sequence, so distinct strings had the same printed form.
Backslash is now printed as \u{5c}.
---
 src/smt_strings.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 0afa77d..e5b86df 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -387,12 +387,16 @@ pub fn smt_char_as_string(x: u32) -> String {
 // Convert to an ASCII string in the SMT syntax
 // - use escape sequences for non-printable ASCII characters and non-ASCII characters
 // - convert "  to ""
+// - use an escape sequence for backslash
 impl fmt::Display for SmtString {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "\"")?;
         for &x in self.s.iter() {
             if x == '"' as u32 {
                 write!(f, "\"\"")?;
+            } else if x == '\\' as u32 {
+                // a raw backslash could be read back as the start of an escape sequence
+                write!(f, "\\u{{{:02x}}}", x)?;
             } else if x >= 32 && x < 127 {
                 write!(f, "{}", char::from_u32(x).unwrap())?;
             } else if x < 32 || x == 127 {
-- 
2.43.0


From 73750581e05bf432d26f779bc9e5fa10d621cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 05/11] fix: str_to_int detects every overflow and only then
 panics

The test y < x misses overflows that wrap past the previous value, so without
overflow checks a wrong number was returned (e.g. for 4294967297 or 10000000000).
Strings such as 99999999999a, which are not numerals, must give -1.
---
 src/smt_strings.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index e5b86df..057323d 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -944,21 +944,18 @@ pub fn str_from_code(x: i32) -> SmtString {
 /// assert_eq!(str_to_int(&SmtString::from("101aaabb")), -1);
 /// ```
 pub fn str_to_int(s: &SmtString) -> i32 {
-    if s.is_empty() {
+    // check all characters first: a string that contains a non-digit is never too large
+    if s.is_empty() || !s.s.iter().all(|&d| char_is_digit(d)) {
         return -1;
     }
 
     let mut x: i32 = 0;
     for &d in &s.s {
-        if char_is_digit(d) {
-            let y = 10 * x + (d as i32 - '0' as i32);
-            if y < x {
-                panic!("Arithmetic overflow in str_to_int");
-            }
-            x = y;
-        } else {
-            return -1;
-        }
+        let digit = d as i32 - '0' as i32;
+        x = match x.checked_mul(10).and_then(|y| y.checked_add(digit)) {
+            Some(y) => y,
+            None => panic!("Arithmetic overflow in str_to_int"),
+        };
     }
     x
 }
-- 
2.43.0


From 8895310ac2513261c82670ea4ba985c7be85db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 06/11] fix: strings built from Rust chars contain only SMT-LIB
 characters

From<&str>, From<String>, From<char> and parse_smt_literal copied code points
above 0x2FFFF, which are not SMT-LIB characters (ReManager::str panics on them).
Replace them by 0xFFFD as the integer conversions do.
---
 src/smt_strings.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 057323d..0d4145a 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -100,6 +100,15 @@ impl SmtString {
     }
 }
 
+// Convert x to a valid SMT character: x itself or the replacement character
+fn smt_char(x: u32) -> u32 {
+    if x <= MAX_CHAR {
+        x
+    } else {
+        REPLACEMENT_CHAR
+    }
+}
+
 impl AsRef<[u32]> for SmtString {
     fn as_ref(&self) -> &[u32] {
         self.s.as_ref()
@@ -109,6 +118,8 @@ impl AsRef<[u32]> for SmtString {
 ///
 /// Construct an SmtString from a UTF8 string x
 ///
+/// Any character of x not in the range [0, 0x2ffff] is replaced by 0xfffd.
+///
 /// # Example
 /// ```
 /// use aws_smt_strings::smt_strings::*;
@@ -118,7 +129,7 @@ impl AsRef<[u32]> for SmtString {
 /// ```
 impl From<&str> for SmtString {
     fn from(x: &str) -> Self {
-        SmtString::make(x.chars().map(|c| c as u32).collect())
+        SmtString::make(x.chars().map(|c| smt_char(c as u32)).collect())
     }
 }
 
@@ -180,9 +191,11 @@ impl From<u32> for SmtString {
 ///
 /// Construct a single-character string from character x.
 ///
+/// Convert x to 0xfffd if it's not a valid character (i.e., if x is not in the range [0, 0x2ffff])
+///
 impl From<char> for SmtString {
     fn from(x: char) -> SmtString {
-        SmtString::make(vec![x as u32])
+        SmtString::from(x as u32)
     }
 }
 
@@ -222,7 +235,7 @@ fn new_automaton() -> ParsingAutomaton {
 impl ParsingAutomaton {
     // add char x to the string so far
     fn push(&mut self, x: char) {
-        self.string_so_far.push(x as u32);
+        self.string_so_far.push(smt_char(x as u32));
     }
 
     // add char x to the pending array
-- 
2.43.0


From 19e79525897e9864cb783f68a4fc2859019b5a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 07/11] fix: start_char is exact on intersections and on
 concatenations with an empty language

Every operand of an intersection may have a string that starts with c without
the operands having a common one, and e1.e2 has no string at all when e2 has
none. Intersections now go through the derivative, like complements.
---
 src/regular_expressions.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/regular_expressions.rs b/src/regular_expressions.rs
index 4092a31..a2a27a9 100644
--- a/src/regular_expressions.rs
+++ b/src/regular_expressions.rs
@@ -1870,12 +1870,12 @@ impl ReManager {
             BaseRegLan::Epsilon => false,
             BaseRegLan::Range(set) => set.contains(c),
             BaseRegLan::Concat(e1, e2) => {
-                self.start_char(e1, c) || e1.nullable && self.start_char(e2, c)
+                self.start_char(e1, c) && !self.is_empty_re(e2)
+                    || e1.nullable && self.start_char(e2, c)
             }
             BaseRegLan::Loop(e, _) => self.start_char(e, c),
-            BaseRegLan::Inter(args) => args.iter().all(|x| self.start_char(x, c)),
             BaseRegLan::Union(args) => args.iter().any(|x| self.start_char(x, c)),
-            BaseRegLan::Complement(_) => {
+            BaseRegLan::Inter(_) | BaseRegLan::Complement(_) => {
                 // expensive case
                 let d = self.deriv(e, c);
                 !self.is_empty_re(d)
-- 
2.43.0


From 5160a0bd99be7bd040398e82879bef8639dc896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:24 +0000
Subject: [PATCH 08/11] fix: AutomatonBuilder::build checks the transitions
 that the caller gave

build validated the states after it had dropped the transitions to the default
successor and picked a default itself, so it accepted states that leave
characters without successor and conflicting labels, and rejected overlapping
labels that lead to the same state. It also modified the builder, so that a
second call saw transitions and defaults that the caller never gave. Check a
copy of the original transitions for conflicts and completeness first.
---
 src/automata.rs | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/automata.rs b/src/automata.rs
index b22341d..cdb6f53 100644
--- a/src/automata.rs
+++ b/src/automata.rs
@@ -539,7 +539,7 @@ impl<'a> Iterator for FinalStateIterator<'a> {
     }
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 struct StateInConstruction {
     is_final: bool,
     default_successor: Option<usize>,
@@ -615,6 +615,30 @@ impl StateInConstruction {
         self.remove_transitions_to_default();
     }
 
+    // check that this state's transitions are deterministic and complete
+    // and merge the overlapping transitions that have the same successor
+    fn check_transitions(&mut self) -> Result<(), Error> {
+        let mut transitions: Vec<(CharSet, usize)> = Vec::new();
+        // by increasing left bound so overlapping transitions are consecutive after merging
+        self.transitions.sort_by_key(|x| x.0.pick());
+        for &(set, next) in &self.transitions {
+            match transitions.last_mut() {
+                Some((last, last_next)) if last.inter(&set).is_some() => {
+                    if *last_next != next {
+                        return Err(Error::NonDisjointCharSets);
+                    }
+                    *last = last.union(&set).unwrap();
+                }
+                _ => transitions.push((set, next)),
+            }
+        }
+        self.transitions = transitions;
+        if self.default_successor.is_none() && !self.make_partition()?.empty_complement() {
+            return Err(Error::MissingDefaultSuccessor);
+        }
+        Ok(())
+    }
+
     fn make_partition(&self) -> Result<CharPartition, Error> {
         CharPartition::try_from_iter(self.transitions.iter().map(|x| x.0))
     }
@@ -706,9 +730,10 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
     ///
     /// Construct an automaton
     /// - fails if a state `s` has non-deterministic transitions,
-    ///   i.e., if two distinct transitions from s have non-disjoint labels (i.e., character sets).
+    ///   i.e., if two transitions from s to distinct states have non-disjoint labels
+    ///   (i.e., character sets).
     /// - fails if a state `s` has a default successor but its transitions
-    ///   already cover the full alphabet.
+    ///   already cover the full alphabet, without any of them going to the default successor.
     /// - fails if a state `s` doesn't have a default successor but its
     ///   transitions do not cover the full alphabet.
     ///
@@ -716,15 +741,16 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
         let n = self.size;
         let mut num_final_states = 0;
         let mut state_array = Vec::with_capacity(n);
-        for (i, s) in self.states.iter_mut().enumerate() {
+        for (i, s) in self.states.iter().enumerate() {
+            // check then simplify a copy: simplification may drop transitions or set a
+            // default that the caller didn't give
+            let mut s = s.clone();
+            s.check_transitions()?;
             s.cleanup();
             let p = s.make_partition()?;
             if s.default_successor.is_some() && p.empty_complement() {
                 return Err(Error::EmptyComplementaryClass);
             }
-            if s.default_successor.is_none() && !p.empty_complement() {
-                return Err(Error::MissingDefaultSuccessor);
-            }
             let successor = s.make_successor(&p);
             if s.is_final {
                 num_final_states += 1;
@@ -753,7 +779,8 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
         let num_states = self.size;
         let mut num_final_states = 0;
         let mut state_array = Vec::with_capacity(num_states);
-        for (i, s) in self.states.iter_mut().enumerate() {
+        for (i, s) in self.states.iter().enumerate() {
+            let mut s = s.clone();
             s.cleanup();
             let p = s.make_partition().unwrap();
             let successor = s.make_successor(&p);
-- 
2.43.0


From 64a66c8f6d39ee70a09101a2919cba8f838fcbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 09/11] fix: right_mul_is_exact doesn't overflow when the
 second range is infinite

[0, 2^20].right_mul_is_exact([2^20, +infinity]) panicked although the product
of the ranges, [0, +infinity], is well defined and exact.
---
 src/loop_ranges.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/loop_ranges.rs b/src/loop_ranges.rs
index 697ab1e..49955a2 100644
--- a/src/loop_ranges.rs
+++ b/src/loop_ranges.rs
@@ -354,7 +354,10 @@ impl LoopRange {
                 // c = other.start()
                 // b = self.end()
                 // a = self.start()
-                mul32(other.start(), self.end() - self.start()) >= self.start().saturating_sub(1)
+                // the product may not fit in 32 bits even if self.mul(other) is defined
+                // (i.e., if d = +infinity)
+                other.start() as u64 * (self.end() - self.start()) as u64
+                    >= self.start().saturating_sub(1) as u64
             }
     }
 
-- 
2.43.0


From 63f2df59eaac39165323bd9c741bc7032d84479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:20 +0000
Subject: [PATCH 10/11] fix: don't merge loops whose merged bounds do not fit
 in 32 bits

concat and mk_loop panicked on such loops, and membership tests panicked too
since derivatives call concat: with L = (re.loop y 0 4294967295), the derivative
of (re.++ (re.union (re.++ b y) c) L) by b is y.L.
---
 src/loop_ranges.rs         | 18 ++++++++++++++++++
 src/regular_expressions.rs | 18 ++++++++++++++----
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/loop_ranges.rs b/src/loop_ranges.rs
index 49955a2..c1a5775 100644
--- a/src/loop_ranges.rs
+++ b/src/loop_ranges.rs
@@ -210,6 +210,24 @@ impl LoopRange {
         self.add(&Self::point(x))
     }
 
+    // Check whether self.add(other) is defined (i.e., doesn't overflow)
+    pub(crate) fn can_add(&self, other: &LoopRange) -> bool {
+        self.start().checked_add(other.start()).is_some()
+            && (self.is_infinite()
+                || other.is_infinite()
+                || self.end().checked_add(other.end()).is_some())
+    }
+
+    // Check whether self.mul(other) is defined (i.e., doesn't overflow)
+    pub(crate) fn can_mul(&self, other: &LoopRange) -> bool {
+        self.is_zero()
+            || other.is_zero()
+            || self.start().checked_mul(other.start()).is_some()
+                && (self.is_infinite()
+                    || other.is_infinite()
+                    || self.end().checked_mul(other.end()).is_some())
+    }
+
     ///
     /// Multiply by a constant k
     ///
diff --git a/src/regular_expressions.rs b/src/regular_expressions.rs
index a2a27a9..747ed5d 100644
--- a/src/regular_expressions.rs
+++ b/src/regular_expressions.rs
@@ -1263,14 +1263,21 @@ impl ReManager {
             (BaseRegLan::Epsilon, _) => e2,
             (_, BaseRegLan::Epsilon) => e1,
             // R . R^[i,j] --> R^[i+1, j+1]
-            (_, BaseRegLan::Loop(y, rng)) if *e1 == **y => {
+            // (here and below: keep the concatenation if the new range doesn't fit in 32 bits)
+            (_, BaseRegLan::Loop(y, rng))
+                if *e1 == **y && rng.can_add(&LoopRange::point(1)) =>
+            {
                 self.make(BaseRegLan::Loop(e1, rng.add_point(1)))
             }
-            (BaseRegLan::Loop(x, rng), _) if *e2 == **x => {
+            (BaseRegLan::Loop(x, rng), _)
+                if *e2 == **x && rng.can_add(&LoopRange::point(1)) =>
+            {
                 self.make(BaseRegLan::Loop(e2, rng.add_point(1)))
             }
             // R^[a,b] . R^[b,c] -> R^[a+b, b+c]
-            (BaseRegLan::Loop(x, x_rng), BaseRegLan::Loop(y, y_rng)) if *x == *y => {
+            (BaseRegLan::Loop(x, x_rng), BaseRegLan::Loop(y, y_rng))
+                if *x == *y && x_rng.can_add(y_rng) =>
+            {
                 self.make(BaseRegLan::Loop(x, x_rng.add(y_rng)))
             }
             // R . R -> R^2
@@ -1362,7 +1369,10 @@ impl ReManager {
                 // epsilon ^ [i, j] --> epsilon
                 BaseRegLan::Epsilon => self.epsilon,
                 // (R ^[i,j]) ^ [k, l] --> R ^[i *k, j*l] if the product is exact
-                BaseRegLan::Loop(x, x_rng) if x_rng.right_mul_is_exact(&range) => {
+                // and can be represented
+                BaseRegLan::Loop(x, x_rng)
+                    if x_rng.can_mul(&range) && x_rng.right_mul_is_exact(&range) =>
+                {
                     self.make(BaseRegLan::Loop(x, x_rng.mul(&range)))
                 }
                 _ => self.make(BaseRegLan::Loop(e, range)),
-- 
2.43.0


From 7683962b28d6ef6c1e55b9418bb7e9392c8d21f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 11/11] fix: minimize doesn't panic when a split block has no
 predecessors

---
 src/minimizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/minimizer.rs b/src/minimizer.rs
index 8c287cb..7ce94a4 100644
--- a/src/minimizer.rs
+++ b/src/minimizer.rs
@@ -219,7 +219,11 @@ impl SplitterSet {
     }
 
     fn take_list(&mut self, b: u32) -> SplitterList {
-        std::mem::take(&mut self.list[b as usize])
+        // there's no list for b if no splitter was ever added for b or a later block
+        self.list
+            .get_mut(b as usize)
+            .map(std::mem::take)
+            .unwrap_or_default()
     }
 
     fn add_splitter(&mut self, s: &Splitter) {
-- 
2.43.0

