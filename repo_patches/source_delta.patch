From 58ee8b69d2f206c5015c51a5fe7727a4fcdccc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 1/7] fix: use the lowest of all the outputs of a state joined
 to several accepting states

A state joined to several accepting states (such as the start state when two patterns can match the
empty string) reported just one of their outputs, picked in hash order, so the compiler could not
choose the lowest of them.
---
 src/dfa_compiler.rs  |  2 +-
 src/ndfa.rs          |  9 +++++++++
 src/state_machine.rs | 20 ++++++++++++++++++++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/dfa_compiler.rs b/src/dfa_compiler.rs
index 87d65be..314418e 100644
--- a/src/dfa_compiler.rs
+++ b/src/dfa_compiler.rs
@@ -199,7 +199,7 @@ impl<InputSymbol: Ord+Clone, OutputSymbol: Ord+Clone, DfaType, Ndfa: StateMachin
                     transitions.push((symbol, DfaState::create(vec![state])));
                 }
 
-                if let Some(source_output) = self.ndfa.output_symbol_for_state(*source_state) {
+                for source_output in self.ndfa.output_symbols_for_state(*source_state) {
                     output.push(source_output.clone());
                 }
             }
diff --git a/src/ndfa.rs b/src/ndfa.rs
index 8c67231..51df245 100644
--- a/src/ndfa.rs
+++ b/src/ndfa.rs
@@ -195,6 +195,15 @@ impl<InputSymbol: Clone, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> f
             _ => result
         }
     }
+
+    ///
+    /// Retrieves the output symbols for a particular state and all of the states that are joined to it
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        self.get_join_closure(state).iter()
+            .filter_map(|joined| self.output_symbols.get(joined))
+            .collect()
+    }
 }
 
 impl<InputSymbol : Clone, OutputSymbol> MutableStateMachine<InputSymbol, OutputSymbol> for Ndfa<InputSymbol, OutputSymbol> {
diff --git a/src/state_machine.rs b/src/state_machine.rs
index 7deaaa6..c152449 100644
--- a/src/state_machine.rs
+++ b/src/state_machine.rs
@@ -53,6 +53,16 @@ pub trait StateMachine<InputSymbol, OutputSymbol> {
     /// If a state is an accepting state, then this returns the output symbol that should be produced if this is the longest match
     ///
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol>;
+
+    ///
+    /// Returns all of the output symbols that can be produced if this state is the longest match
+    ///
+    /// A nondeterministic state can have more than one (for example, when it's joined to several accepting states). They're returned
+    /// in no particular order: it's up to the caller to decide which one to use.
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        self.output_symbol_for_state(state).into_iter().collect()
+    }
 }
 
 ///
@@ -117,6 +127,11 @@ impl<InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for Rc<S
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
 
 ///
@@ -137,4 +152,9 @@ impl<'a, InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
-- 
2.43.0


From 2605c825c81046e6d2b490c49355b3e0b584a89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 2/7] fix: keep the lowest output when several token patterns
 match only the empty string

Such patterns all end at state 0, so each one replaced the output of those before it.
---
 src/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 253b69e..f89ec5c 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -67,8 +67,12 @@ impl<InputSymbol: Clone+Ord+Countable+'static, OutputSymbol: Clone+Ord+'static>
             // Compile each pattern starting at state 0
             let end_state = pattern.compile(&mut ndfa, 0);
 
+            // Give every pattern its own accepting state: patterns that match nothing all end at state 0, where they'd replace each other's output
+            let accept_state = ndfa.count_states();
+            ndfa.join_states(end_state, accept_state);
+
             // Set the output for this pattern
-            ndfa.set_output_symbol(end_state, output.clone());
+            ndfa.set_output_symbol(accept_state, output.clone());
         }
 
         // Clear out any overlapping ranges so we can build a valid DFA
-- 
2.43.0


From 6f88a815923a810fd9962e9470b2495557210da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 3/7] fix: skip the surrogate gap when counting chars

The char after d7ff is e000 and vice versa: wrapping around to 0 or to ffff made ranges that end
beside the gap panic or match the wrong symbols.
---
 src/countable.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/countable.rs b/src/countable.rs
index e3a6b21..7abfda4 100644
--- a/src/countable.rs
+++ b/src/countable.rs
@@ -85,9 +85,21 @@ impl Countable for i64 {
     fn prev(&self) -> Self { *self-1 }
 }
 
+// The surrogate code points (d800-dfff) are not valid chars, so d7ff and e000 are neighbours
 impl Countable for char { 
-    fn next(&self) -> Self { char::from_u32((*self as u32)+1).unwrap_or('\u{0000}') }
-    fn prev(&self) -> Self { char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}') }
+    fn next(&self) -> Self { 
+        match *self {
+            '\u{d7ff}' => '\u{e000}',
+            _          => char::from_u32((*self as u32)+1).unwrap_or('\u{0000}')
+        }
+    }
+
+    fn prev(&self) -> Self { 
+        match *self {
+            '\u{e000}' => '\u{d7ff}',
+            _          => char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}')
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From cde980c8febaded64679730b37f92051c6a16eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 4/7] fix: keep dropped split readers marked as dropped

Clearing the buffer also moved the usize::max_value() position of a dropped reader, so that it was
later taken for a live one: dropping the other reader then tried to discard about 2^64 symbols.
---
 src/split_reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/split_reader.rs b/src/split_reader.rs
index ce96077..8669a6f 100644
--- a/src/split_reader.rs
+++ b/src/split_reader.rs
@@ -72,8 +72,11 @@ impl<'a, Symbol: Clone> SplitSymbolReaderBuffer<'a, Symbol> {
                     self.buffer.pop_front();
                 }
 
+                // (A position of usize::max_value() marks a reader that has been dropped, so it must not be moved)
                 for pos in self.positions.iter_mut() {
-                    *pos -= lowest_pos;
+                    if *pos < usize::max_value() {
+                        *pos -= lowest_pos;
+                    }
                 }
             }
         }
-- 
2.43.0


From d5d8f9875074ebc9ce63626c830d264ac66d6dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 5/7] fix: refuse to rewind a tape beyond the last cut after
 rewinding it already

The distance was compared with the size of the whole buffer instead of the part before the read
position.
---
 src/tape.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tape.rs b/src/tape.rs
index afa621e..4d2def9 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -127,8 +127,14 @@ impl<Symbol: Clone+Sized, SourceReader: SymbolReader<Symbol>> Tape<Symbol, Sourc
     /// Moves backwards by num_symbols
     ///
     pub fn rewind(&mut self, num_symbols: usize) {
-        // Do nothing if we're over the maximum length of the buffer
-        if num_symbols > self.buffer_size() {
+        // Only symbols between the start of the buffer and the current read position can be rewound
+        let rewindable = if self.first_symbol_index > self.read_index {
+            (self.read_index + self.buffer.len()) - self.first_symbol_index
+        } else {
+            self.read_index - self.first_symbol_index
+        };
+
+        if num_symbols > rewindable {
             panic!("Can't rewind beyond the start of the tape");
         }
 
-- 
2.43.0


From 94b711331a9dd66a567d263c8f26baf0b572d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 6/7] fix: find every overlapping range in maps whose ranges
 overlap each other

Only the range just before the insertion position was considered, but a longer range that starts
earlier can overlap too.
---
 src/overlapping_symbols.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/overlapping_symbols.rs b/src/overlapping_symbols.rs
index fc7b91b..068db2a 100644
--- a/src/overlapping_symbols.rs
+++ b/src/overlapping_symbols.rs
@@ -108,12 +108,13 @@ impl<Symbol: Ord+Clone+Countable> SymbolMap<Symbol> {
             Err(insert_position) => insert_position
         };
 
-        // Move backwards if the previous position overlaps this one
-        if pos > 0 && self.ranges[pos-1].highest >= range.lowest {
-            pos -= 1;
+        // Any of the ranges before this position might also overlap (they might be anywhere if the ranges in this map overlap each other)
+        for earlier_range in &self.ranges[0..pos] {
+            if earlier_range.highest >= range.lowest {
+                result.push(earlier_range);
+            }
         }
 
-        // TODO: can we construct a set of ranges such that one is missed here? Think maybe we can
         while pos < self.ranges.len() && self.ranges[pos].lowest <= range.highest {
             result.push(&self.ranges[pos]);
             pos += 1;
-- 
2.43.0


From 804129166793bee23ffda056f502cc6999d76628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 7/7] fix: keep the accepting states of matchers without output
 symbols in JSON

Serialising a matcher whose output symbol is () (anything made by Pattern::prepare_to_match) or an Option to JSON wrote the accepting
states as null, so every one of them was lost when it was read back. The output symbol is now kept in a 1-tuple, which JSON formats as an
array; the layout used by compact formats such as bincode does not change.
---
 src/symbol_range_dfa.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/symbol_range_dfa.rs b/src/symbol_range_dfa.rs
index 1e8c023..06898cf 100644
--- a/src/symbol_range_dfa.rs
+++ b/src/symbol_range_dfa.rs
@@ -44,7 +44,10 @@ pub struct SymbolRangeDfa<InputSymbol: Ord, OutputSymbol> {
     //
     // The accepting symbol for each state
     //
-    accept: Vec<Option<OutputSymbol>>
+    // (The symbols are in a tuple as a format like JSON can't tell `None` from `Some(())`, so the accepting states would otherwise be lost
+    // when a matcher without output symbols is serialised)
+    //
+    accept: Vec<Option<(OutputSymbol,)>>
 }
 
 ///
@@ -53,7 +56,7 @@ pub struct SymbolRangeDfa<InputSymbol: Ord, OutputSymbol> {
 pub struct SymbolRangeDfaBuilder<InputSymbol: Ord+Countable, OutputSymbol> {
     states: Vec<usize>,
     transitions: Vec<(SymbolRange<InputSymbol>, StateId)>,
-    accept: Vec<Option<OutputSymbol>>
+    accept: Vec<Option<(OutputSymbol,)>>
 }
 
 impl<InputSymbol: Ord+Countable, OutputSymbol> SymbolRangeDfaBuilder<InputSymbol, OutputSymbol> {
@@ -95,7 +98,7 @@ impl<InputSymbol: Ord+Countable+Clone, OutputSymbol> DfaBuilder<SymbolRange<Inpu
 
     fn accept(&mut self, symbol: OutputSymbol) {
         self.accept.pop();
-        self.accept.push(Some(symbol));
+        self.accept.push(Some((symbol,)));
     }
 
     fn build(self) -> SymbolRangeDfa<InputSymbol, OutputSymbol> {
@@ -143,7 +146,7 @@ impl<InputSymbol: Ord+Clone, OutputSymbol> StateMachine<SymbolRange<InputSymbol>
     /// If a state is an accepting state, then this returns the output symbol that should be produced if this is the longest match
     ///
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
-        self.accept[state as usize].as_ref()
+        self.accept[state as usize].as_ref().map(|&(ref symbol,)| symbol)
     }
 }
 
@@ -171,7 +174,7 @@ impl<InputSymbol: Ord, OutputSymbol> SymbolRangeDfa<InputSymbol, OutputSymbol> {
     ///
     pub fn start<'a>(&'a self) -> MatchAction<'a, OutputSymbol, SymbolRangeState<'a, InputSymbol, OutputSymbol>> {
         // TODO: if state 0 is accepting, then this will erroneously not move straight to the accepting state
-        if let Some(ref outputsymbol) = self.accept[0] {
+        if let Some((ref outputsymbol,)) = self.accept[0] {
             More(SymbolRangeState { state: 0, count: 0, accept: Some((0, outputsymbol)), state_machine: self })
         } else {
             More(SymbolRangeState { state: 0, count: 0, accept: None, state_machine: self })
@@ -184,7 +187,7 @@ impl<InputSymbol: Ord, OutputSymbol> SymbolRangeDfa<InputSymbol, OutputSymbol> {
     pub fn description(&self) -> String {
         let state_size          = size_of::<usize>() * self.states.len();
         let transitions_size    = size_of::<(SymbolRange<InputSymbol>, StateId)>() * self.transitions.len();
-        let accept_size         = size_of::<Option<OutputSymbol>>() * self.accept.len();
+        let accept_size         = size_of::<Option<(OutputSymbol,)>>() * self.accept.len();
         let total_size          = state_size + transitions_size + accept_size;
 
         format!("SymbolRangeDfa: {} states, {} total transitions. {} bytes", self.states.len(), self.transitions.len(), total_size)
@@ -208,7 +211,7 @@ impl<'a, InputSymbol: Ord+'a, OutputSymbol: 'a> MatchingState<'a, InputSymbol, O
                 let new_count = self.count+1;
 
                 // If the new state is an accepting state, then remember it in case we reach a rejecting state later
-                let new_accept = if let Some(ref output) = self.state_machine.accept[new_state as usize] {
+                let new_accept = if let Some((ref output,)) = self.state_machine.accept[new_state as usize] {
                     Some((new_count, output))
                 } else {
                     self.accept
-- 
2.43.0

