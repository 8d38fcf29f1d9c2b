From 5a900a4471ace5c8b5dc0886ba3b2e824c4a35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:50 +0000
Subject: [PATCH 1/8] fix: next/prev of the chars either side of the surrogate
 range

---
 src/countable.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/countable.rs b/src/countable.rs
index e3a6b21..ad56048 100644
--- a/src/countable.rs
+++ b/src/countable.rs
@@ -86,8 +86,9 @@ impl Countable for i64 {
 }
 
 impl Countable for char { 
-    fn next(&self) -> Self { char::from_u32((*self as u32)+1).unwrap_or('\u{0000}') }
-    fn prev(&self) -> Self { char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}') }
+    // The surrogates (U+D800 to U+DFFF) are not chars: the symbols either side of them are neighbours
+    fn next(&self) -> Self { if *self == '\u{d7ff}' { '\u{e000}' } else { char::from_u32((*self as u32)+1).unwrap_or('\u{0000}') } }
+    fn prev(&self) -> Self { if *self == '\u{e000}' { '\u{d7ff}' } else { char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}') } }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3a44805d44ad6575c3d8b5670e12b0a09212b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:50 +0000
Subject: [PATCH 2/8] fix: patterns that match the empty string overwrote each
 other's output in TokenMatcher

---
 src/tokenizer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 253b69e..71ae054 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -67,8 +67,10 @@ impl<InputSymbol: Clone+Ord+Countable+'static, OutputSymbol: Clone+Ord+'static>
             // Compile each pattern starting at state 0
             let end_state = pattern.compile(&mut ndfa, 0);
 
-            // Set the output for this pattern
-            ndfa.set_output_symbol(end_state, output.clone());
+            // Set the output for this pattern (in a state of its own, as an empty pattern ends on the state it shares with the others)
+            let accept_state = ndfa.count_states();
+            ndfa.join_states(end_state, accept_state);
+            ndfa.set_output_symbol(accept_state, output.clone());
         }
 
         // Clear out any overlapping ranges so we can build a valid DFA
-- 
2.43.0


From 86cc8b6f892f57db77a3ea92257bcb8c6c35fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:48 +0000
Subject: [PATCH 3/8] fix: a state joined to states with different outputs took
 an arbitrary one of them when compiled

---
 src/dfa_compiler.rs  |  2 +-
 src/ndfa.rs          |  7 +++++++
 src/state_machine.rs | 19 +++++++++++++++++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/dfa_compiler.rs b/src/dfa_compiler.rs
index 87d65be..314418e 100644
--- a/src/dfa_compiler.rs
+++ b/src/dfa_compiler.rs
@@ -199,7 +199,7 @@ impl<InputSymbol: Ord+Clone, OutputSymbol: Ord+Clone, DfaType, Ndfa: StateMachin
                     transitions.push((symbol, DfaState::create(vec![state])));
                 }
 
-                if let Some(source_output) = self.ndfa.output_symbol_for_state(*source_state) {
+                for source_output in self.ndfa.output_symbols_for_state(*source_state) {
                     output.push(source_output.clone());
                 }
             }
diff --git a/src/ndfa.rs b/src/ndfa.rs
index 8c67231..16f49b3 100644
--- a/src/ndfa.rs
+++ b/src/ndfa.rs
@@ -195,6 +195,13 @@ impl<InputSymbol: Clone, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> f
             _ => result
         }
     }
+
+    ///
+    /// Retrieves the output symbols for a particular state and all of the states it's joined with
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        self.get_join_closure(state).iter().filter_map(|joined| self.output_symbols.get(joined)).collect()
+    }
 }
 
 impl<InputSymbol : Clone, OutputSymbol> MutableStateMachine<InputSymbol, OutputSymbol> for Ndfa<InputSymbol, OutputSymbol> {
diff --git a/src/state_machine.rs b/src/state_machine.rs
index 7deaaa6..7405ef5 100644
--- a/src/state_machine.rs
+++ b/src/state_machine.rs
@@ -53,6 +53,15 @@ pub trait StateMachine<InputSymbol, OutputSymbol> {
     /// If a state is an accepting state, then this returns the output symbol that should be produced if this is the longest match
     ///
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol>;
+
+    ///
+    /// Returns every output symbol that applies to a state (in any order)
+    ///
+    /// There can be more than one if the state is joined to others (see `join_states`)
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        self.output_symbol_for_state(state).into_iter().collect()
+    }
 }
 
 ///
@@ -117,6 +126,11 @@ impl<InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for Rc<S
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
 
 ///
@@ -137,4 +151,9 @@ impl<'a, InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
-- 
2.43.0


From fc181d533d497ad1d91b553a879e25a27e66d44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 4/8] fix: range lookup missed ranges that an earlier,
 shorter-ended range hides

---
 src/overlapping_symbols.rs | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/overlapping_symbols.rs b/src/overlapping_symbols.rs
index fc7b91b..8be21ed 100644
--- a/src/overlapping_symbols.rs
+++ b/src/overlapping_symbols.rs
@@ -99,24 +99,11 @@ impl<Symbol: Ord+Clone+Countable> SymbolMap<Symbol> {
     pub fn find_overlapping_ranges(&self, range: &SymbolRange<Symbol>) -> Vec<&SymbolRange<Symbol>> {
         let mut result = vec![];
 
-        // Find the first range that matches (or the insertion position, which should be the first range wit a lowest value higher than the target range)
-        let existing = self.ranges.binary_search_by(|test_range| { SymbolMap::order_ranges(test_range, range) });
-
-        // Start returning values from here
-        let mut pos = match existing {
-            Ok(found_position) => found_position,
-            Err(insert_position) => insert_position
-        };
-
-        // Move backwards if the previous position overlaps this one
-        if pos > 0 && self.ranges[pos-1].highest >= range.lowest {
-            pos -= 1;
-        }
-
-        // TODO: can we construct a set of ranges such that one is missed here? Think maybe we can
-        while pos < self.ranges.len() && self.ranges[pos].lowest <= range.highest {
-            result.push(&self.ranges[pos]);
-            pos += 1;
+        // As the ranges in the map can overlap each other, any range that starts before the end of the target could overlap it
+        for test_range in self.ranges.iter().take_while(|test_range| test_range.lowest <= range.highest) {
+            if test_range.overlaps(range) {
+                result.push(test_range);
+            }
         }
 
         result
-- 
2.43.0


From c36afb349ed9eddca5abf6aeec9489e1dd60cbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 5/8] fix: a tape could be rewound past its start or last cut
 after an earlier rewind

---
 src/tape.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tape.rs b/src/tape.rs
index afa621e..ceb5980 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -127,8 +127,15 @@ impl<Symbol: Clone+Sized, SourceReader: SymbolReader<Symbol>> Tape<Symbol, Sourc
     /// Moves backwards by num_symbols
     ///
     pub fn rewind(&mut self, num_symbols: usize) {
+        // The symbols between the start of the buffer and the read position are the ones that can be rewound over
+        let num_available = if self.first_symbol_index > self.read_index {
+            (self.read_index + self.buffer.len()) - self.first_symbol_index
+        } else {
+            self.read_index - self.first_symbol_index
+        };
+
         // Do nothing if we're over the maximum length of the buffer
-        if num_symbols > self.buffer_size() {
+        if num_symbols > num_available {
             panic!("Can't rewind beyond the start of the tape");
         }
 
-- 
2.43.0


From 3d011770150cd5b4c360ac594017627de7bda2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 6/8] fix: dropping both halves of a split reader could loop
 for ever

---
 src/split_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/split_reader.rs b/src/split_reader.rs
index ce96077..5185752 100644
--- a/src/split_reader.rs
+++ b/src/split_reader.rs
@@ -72,7 +72,8 @@ impl<'a, Symbol: Clone> SplitSymbolReaderBuffer<'a, Symbol> {
                     self.buffer.pop_front();
                 }
 
-                for pos in self.positions.iter_mut() {
+                // Readers that have been dropped no longer have a position in the buffer
+                for pos in self.positions.iter_mut().filter(|pos| **pos < usize::max_value()) {
                     *pos -= lowest_pos;
                 }
             }
-- 
2.43.0


From 5b667ff86f7c9eb4df5b4037afde9985b39e44a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:50 +0000
Subject: [PATCH 7/8] fix: let go of skipped symbols in the tokenizer

A tokenizer kept every symbol skipped since its last token, so an endless
source with few tokens in it filled the memory
---
 src/tokenizer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 71ae054..5b52cc1 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -151,7 +151,12 @@ impl<'a, InputSymbol: Clone+Ord+Countable, OutputSymbol: Clone+Ord+'static, Read
     /// Skips an input symbol (returning the symbol that was skipped)
     ///
     pub fn skip_input(&mut self) -> Option<InputSymbol> {
-        self.tape.next_symbol()
+        let skipped = self.tape.next_symbol();
+
+        // Nothing goes back to a symbol that has been skipped
+        self.tape.cut();
+
+        skipped
     }
 
     ///
-- 
2.43.0


From 110dc1dd8818c49f081b8db0400d08ffa4c39590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:50 +0000
Subject: [PATCH 8/8] fix: don't count the cap of the last state as a state in
 descriptions

---
 src/symbol_range_dfa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_range_dfa.rs b/src/symbol_range_dfa.rs
index 1e8c023..01f74e4 100644
--- a/src/symbol_range_dfa.rs
+++ b/src/symbol_range_dfa.rs
@@ -187,7 +187,7 @@ impl<InputSymbol: Ord, OutputSymbol> SymbolRangeDfa<InputSymbol, OutputSymbol> {
         let accept_size         = size_of::<Option<OutputSymbol>>() * self.accept.len();
         let total_size          = state_size + transitions_size + accept_size;
 
-        format!("SymbolRangeDfa: {} states, {} total transitions. {} bytes", self.states.len(), self.transitions.len(), total_size)
+        format!("SymbolRangeDfa: {} states, {} total transitions. {} bytes", self.states.len()-1, self.transitions.len(), total_size)
     }
 }
 
-- 
2.43.0

