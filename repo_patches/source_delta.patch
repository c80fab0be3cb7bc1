From ed3bea34ac1f0033599c9a24f6d8c9a057441888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:43 +0000
Subject: [PATCH 01/22] fix: wildcard matches the first and last symbol of the
 vocabulary

WildcardTransition::matches used strict comparisons, so '.' did not match
token type 1, the highest token type, or the characters 0 and 0x10FFFF.
---
 src/transition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transition.rs b/src/transition.rs
index 15f527c..e2be415 100644
--- a/src/transition.rs
+++ b/src/transition.rs
@@ -298,7 +298,7 @@ impl Transition for WildcardTransition {
     }
 
     fn matches(&self, _symbol: isize, _min_vocab_symbol: isize, _max_vocab_symbol: isize) -> bool {
-        _symbol < _max_vocab_symbol && _symbol > _min_vocab_symbol
+        _symbol <= _max_vocab_symbol && _symbol >= _min_vocab_symbol
     }
 }
 
-- 
2.43.0


From fb1d071fe7bcd6e06cd4b7bc0530eadbea6dbc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:43 +0000
Subject: [PATCH 02/22] fix: restore the input and release the mark when
 prediction fails

adaptive_predict returned early on error, leaving the token stream where
lookahead stopped and its mark outstanding.
---
 src/parser_atn_simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 9043c48..02965b6 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -226,13 +226,13 @@ impl ParserATNSimulator {
                 s0
             });
 
-            self.exec_atn(&mut local, s0)?
+            self.exec_atn(&mut local, s0)
         };
 
         local.input().seek(self.start_index.get());
         local.input().release(m);
         //        println!("result = {}", result);
-        Ok(result)
+        result
     }
 
     #[allow(non_snake_case)]
-- 
2.43.0


From a87d87246fac0a2f2f8b03ac70fe2d114771b614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:01 +0000
Subject: [PATCH 03/22] fix: keep lexer DFA states apart when their actions
 differ

The cached hash of LexerActionExecutor was not updated when an action was
appended or its offset was fixed, and lexer DFA states were looked up by
hash alone, so states that only differ in their actions were merged and
the wrong action ran. Recompute the hash and compare states before reuse.
---
 src/lexer_action_executor.rs | 10 ++++------
 src/lexer_atn_simulator.rs   | 24 +++++++++++-------------
 2 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/lexer_action_executor.rs b/src/lexer_action_executor.rs
index 4bfaaa7..979e171 100644
--- a/src/lexer_action_executor.rs
+++ b/src/lexer_action_executor.rs
@@ -39,11 +39,9 @@ impl LexerActionExecutor {
         old: Option<&Self>,
         lexer_action: LexerAction,
     ) -> LexerActionExecutor {
-        let mut new = old
-            .cloned()
-            .unwrap_or_else(|| LexerActionExecutor::new(Vec::new()));
-        new.lexer_actions.push(lexer_action);
-        new
+        let mut lexer_actions = old.map_or_else(Vec::new, |it| it.lexer_actions.clone());
+        lexer_actions.push(lexer_action);
+        LexerActionExecutor::new(lexer_actions)
     }
 
     pub fn fix_offset_before_match(mut self, offset: isize) -> LexerActionExecutor {
@@ -60,7 +58,7 @@ impl LexerActionExecutor {
                 }
             }
         }
-        self
+        LexerActionExecutor::new(self.lexer_actions)
     }
 
     pub fn execute<'input>(&self, lexer: &mut impl Lexer<'input>, start_index: isize) {
diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 433324d..5ed70ba 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -691,19 +691,17 @@ impl LexerATNSimulator {
 
         let states = &mut dfa.states;
         let key = dfastate.default_hash();
-        let dfastate_index = *dfa
-            .states_map
-            .entry(key)
-            .or_insert_with(|| {
-                dfastate.state_number = states.deref().len();
-                dfastate.configs.set_read_only(true);
-                let i = dfastate.state_number;
-                //println!("inserting new DFA state {} with size {}", i, dfastate.configs.length());
-                states.push(dfastate);
-                vec![i]
-            })
-            .first()
-            .unwrap();
+        let same_hash = dfa.states_map.entry(key).or_insert_with(Vec::new);
+        if let Some(&existing) = same_hash.iter().find(|&&it| states[it] == dfastate) {
+            return existing;
+        }
+
+        let dfastate_index = states.len();
+        dfastate.state_number = dfastate_index;
+        dfastate.configs.set_read_only(true);
+        //println!("inserting new DFA state {} with size {}", dfastate_index, dfastate.configs.length());
+        same_hash.push(dfastate_index);
+        states.push(dfastate);
 
         //println!("new DFA state {}", dfastate_index);
 
-- 
2.43.0


From 6ea8a9e418aede2a6b3d2fdf63e45f51ed0ee820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:39 +0000
Subject: [PATCH 04/22] fix: do not cache lexer DFA edges that fix the offset
 of an action

The offset of an action in the middle of a token was baked into the target
of a cached edge, so a later token reaching that edge after a prefix of
another length ran the action at the wrong position.
---
 src/lexer_atn_simulator.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 5ed70ba..3d9b43d 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -342,8 +342,15 @@ impl LexerATNSimulator {
             for tr in atn_state.get_transitions() {
                 if let Some(target) = tr.get_reachable_target(_t) {
                     let exec = config.get_lexer_executor().map(|x| {
-                        x.clone()
-                            .fix_offset_before_match(lexer.input().index() - self.start_index)
+                        let fixed = x
+                            .clone()
+                            .fix_offset_before_match(lexer.input().index() - self.start_index);
+                        if fixed != *x {
+                            // the offset belongs to this token only, another token can get
+                            // here at different offset, so this edge must not be cached
+                            _reach.set_has_semantic_context(true);
+                        }
+                        fixed
                     });
 
                     let new = config.cloned_with_new_exec(self.atn().states[target].as_ref(), exec);
-- 
2.43.0


From 46d347352154be87b069be952fe87793b66c7b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:27 +0000
Subject: [PATCH 05/22] fix: iterating over a stream ends at EOF instead of
 panicking

---
 src/int_stream.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/int_stream.rs b/src/int_stream.rs
index 1ae40bc..c4451bd 100644
--- a/src/int_stream.rs
+++ b/src/int_stream.rs
@@ -75,11 +75,12 @@ impl<'a, T: IntStream> Iterator for IterWrapper<'a, T> {
     type Item = isize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let result = self.0.la(1);
-        self.0.consume();
-        match result {
+        match self.0.la(1) {
             EOF => None,
-            x => Some(x),
+            x => {
+                self.0.consume();
+                Some(x)
+            }
         }
     }
 }
-- 
2.43.0


From 136a904eeacc9c9546762dc408bc8753173e7132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:27 +0000
Subject: [PATCH 06/22] fix: a token stream starts at the first token on its
 channel

---
 src/common_token_stream.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index a56ddc7..6e50f4b 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -106,7 +106,7 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
             base: UnbufferedTokenStream::new_buffered(lexer),
             channel,
         };
-        r.sync(0);
+        r.seek_to_first_on_channel();
         r
     }
 
@@ -129,6 +129,12 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
     pub fn reset(&mut self) {
         self.base.p = 0;
         self.base.current_token_index = 0;
+        self.seek_to_first_on_channel();
+    }
+
+    fn seek_to_first_on_channel(&mut self) {
+        let first = self.next_token_on_channel(0, self.channel, 1);
+        self.base.seek(first);
     }
 
     /// Creates iterator over this token stream
-- 
2.43.0


From 11edd36d4b08ac4bd43b90ff38b179386a7145ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:27 +0000
Subject: [PATCH 07/22] fix: looking behind the first on-channel token gives
 none

---
 src/common_token_stream.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index 6e50f4b..987b6ab 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -173,11 +173,14 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
 
         let mut token = self.base.tokens[i as usize].borrow();
         while token.get_channel() != channel {
-            if token.get_token_type() == EOF || i < 0 {
+            if token.get_token_type() == EOF {
                 return i;
             }
 
             i += direction;
+            if i < 0 {
+                return i;
+            }
             self.sync(i);
             token = self.base.tokens[i as usize].borrow();
         }
@@ -218,7 +221,10 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
         let mut i = self.base.p;
         let mut n = 1;
         // find k good tokens looking backwards
-        while n <= k && i > 0 {
+        while n <= k {
+            if i <= 0 {
+                return None;
+            }
             // skip off-channel tokens
             i = self.next_token_on_channel(i - 1, self.channel, -1);
             n += 1;
-- 
2.43.0


From f957ca4e73c4904dfb08b90be991bb859a84a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:27 +0000
Subject: [PATCH 08/22] fix: look-ahead past EOF gives EOF, look-behind counts
 tokens

---
 src/token_stream.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 9623c72..9dea7e2 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -154,13 +154,15 @@ impl<'input, T: TokenSource<'input>> TokenStream<'input> for UnbufferedTokenStre
 
     #[inline]
     fn lt(&mut self, i: isize) -> Option<&<Self::TF as TokenFactory<'input>>::Tok> {
-        if i == -1 {
-            return self.tokens.get(self.p as usize - 1);
+        if i < 0 {
+            return self.tokens.get((self.p + i) as usize);
         }
 
         self.sync(i);
 
-        self.tokens.get((self.p + i - 1) as usize)
+        // there is nothing after EOF, which is the last token fetched
+        let index = min(self.p + i, self.size()) - 1;
+        self.tokens.get(index as usize)
     }
 
     #[inline]
-- 
2.43.0


From 52f4bd1b8b2829876f89146d4cd33fd43245f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:27 +0000
Subject: [PATCH 09/22] fix: releasing a mark keeps the previous token

---
 src/token_stream.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 9dea7e2..6cfa683 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -242,7 +242,8 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
         self.markers_count -= 1;
         if self.markers_count == 0 {
             if self.p > 0 {
-                self.tokens.drain(0..self.p as usize);
+                // the previous token stays, it is what `lt(-1)` returns
+                self.tokens.drain(0..self.p as usize - 1);
                 //todo drain assembly is almost 2x longer than
                 // unsafe manual copy but need to bench before using unsafe
                 //let new_len = self.tokens.len() - self.p as usize;
@@ -260,7 +261,7 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
                 //     self.tokens.set_len(new_len);
                 // }
 
-                self.p = 0;
+                self.p = 1;
             }
         }
     }
-- 
2.43.0


From 314cd98dd3942a6e39522dbc83855e7b3453d687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:50 +0000
Subject: [PATCH 10/22] fix: listeners see a rule entered before it is exited
 when no alternative matches

---
 src/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index e5cf988..0926e8d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -143,6 +143,8 @@ pub struct BaseParser<
     pub input: I,
     precedence_stack: Vec<isize>,
 
+    /// the current rule's enter event waits until its alternative is known
+    enter_event_pending: bool,
     parse_listeners: Vec<Box<T>>,
     _syntax_errors: Cell<isize>,
     error_listeners: RefCell<Vec<Box<dyn ErrorListener<'input, Self>>>>,
@@ -409,6 +411,7 @@ where
             state: -1,
             input,
             precedence_stack: vec![0],
+            enter_event_pending: false,
             parse_listeners: vec![],
             _syntax_errors: Cell::new(0),
             error_listeners: RefCell::new(vec![Box::new(ConsoleErrorListener {})]),
@@ -542,6 +545,7 @@ where
         self.set_state(state);
         localctx.set_start(self.input.lt(1).cloned());
         self.ctx = Some(localctx);
+        self.enter_event_pending = true;
         //        let mut localctx = Rc::get_mut(self.ctx.as_mut().unwrap()).unwrap();
         if self.build_parse_trees {
             self.add_context_to_parse_tree()
@@ -561,6 +565,11 @@ where
                 .unwrap()
                 .set_stop(self.input.lt(-1).cloned())
         }
+        if self.enter_event_pending {
+            // no alternative could be chosen
+            self.trigger_enter_rule_event();
+            self.enter_event_pending = false;
+        }
         self.trigger_exit_rule_event();
         self.set_state(self.get_parser_rule_context().get_invoking_state());
         let parent = self.ctx.as_ref().unwrap().get_parent_ctx();
@@ -585,6 +594,7 @@ where
             self.ctx = Some(new_ctx);
         }
 
+        self.enter_event_pending = false;
         self.trigger_enter_rule_event();
     }
 
-- 
2.43.0


From 7af124d7424a47146cf39ea7ba2da9b2475269c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:49 +0000
Subject: [PATCH 11/22] fix: do not panic on an error after a rule whose
 parents are gone

---
 src/errors.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index 2f1d3ae..1c26293 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -10,7 +10,7 @@ use std::rc::Rc;
 use crate::atn_simulator::IATNSimulator;
 use crate::interval_set::IntervalSet;
 use crate::parser::{Parser, ParserNodeType};
-use crate::rule_context::states_stack;
+use crate::rule_context::{states_stack, RuleContext};
 use crate::token::{OwningToken, Token};
 use crate::transition::PredicateTransition;
 use crate::transition::TransitionType::TRANSITION_PREDICATE;
@@ -207,6 +207,14 @@ impl InputMisMatchError {
         ctx: Rc<<T::Node as ParserNodeType<'a>>::Type>,
     ) -> InputMisMatchError {
         let mut a = Self::new(recognizer);
+        // without a parse tree nothing keeps the parents of a finished rule alive
+        let mut root = ctx.clone();
+        while root.get_invoking_state() >= 0 {
+            match root.get_parent_ctx() {
+                Some(parent) => root = parent,
+                None => return a,
+            }
+        }
         // a.base.ctx = ctx;
         a.base.offending_state = offending_state;
         a.base.states_stack = states_stack(ctx).collect();
-- 
2.43.0


From d68af343c978a1a90dda01b25cd9669da1d64fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:13 +0000
Subject: [PATCH 12/22] fix: listeners see a left-recursive rule exited once
 when extending it fails

---
 src/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0926e8d..0e4bf08 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -145,6 +145,8 @@ pub struct BaseParser<
 
     /// the current rule's enter event waits until its alternative is known
     enter_event_pending: bool,
+    /// address of the context that was exited last, if nothing was entered since
+    exited_ctx: usize,
     parse_listeners: Vec<Box<T>>,
     _syntax_errors: Cell<isize>,
     error_listeners: RefCell<Vec<Box<dyn ErrorListener<'input, Self>>>>,
@@ -412,6 +414,7 @@ where
             input,
             precedence_stack: vec![0],
             enter_event_pending: false,
+            exited_ctx: 0,
             parse_listeners: vec![],
             _syntax_errors: Cell::new(0),
             error_listeners: RefCell::new(vec![Box::new(ConsoleErrorListener {})]),
@@ -506,6 +509,7 @@ where
     }
 
     pub fn trigger_enter_rule_event(&mut self) {
+        self.exited_ctx = 0;
         let ctx = self.ctx.as_deref().unwrap();
         for listener in self.parse_listeners.iter_mut() {
             // listener.enter_every_rule(ctx);
@@ -515,6 +519,7 @@ where
 
     pub fn trigger_exit_rule_event(&mut self) {
         let ctx = self.ctx.as_deref().unwrap();
+        self.exited_ctx = ctx as *const Ctx::Type as *const () as usize;
         for listener in self.parse_listeners.iter_mut().rev() {
             ctx.exit(listener);
             // listener.exit_every_rule(ctx);
@@ -641,7 +646,11 @@ where
             while self.ctx.as_ref().map(|x| Rc::as_ptr(x))
                 != parent_ctx.as_ref().map(|x| Rc::as_ptr(x))
             {
-                self.trigger_exit_rule_event();
+                // when extending the recursion failed this context was already exited
+                let ctx = Rc::as_ptr(self.ctx.as_ref().unwrap());
+                if ctx as *const () as usize != self.exited_ctx {
+                    self.trigger_exit_rule_event();
+                }
                 self.ctx = self.ctx.as_ref().unwrap().get_parent_ctx()
             }
         } else {
-- 
2.43.0


From 72557c2cdaa1a47ef84130901489793015ae7d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:52 +0000
Subject: [PATCH 13/22] fix: keep DFA states apart when only one has left the
 decision's rule

---
 src/atn_config_set.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/atn_config_set.rs b/src/atn_config_set.rs
index d4eea7c..96475b7 100644
--- a/src/atn_config_set.rs
+++ b/src/atn_config_set.rs
@@ -80,6 +80,15 @@ impl PartialEq for ATNConfigSet {
             && self.conflicting_alts == other.conflicting_alts
             && self.has_semantic_context == other.has_semantic_context
             && self.dips_into_outer_context == other.dips_into_outer_context
+            // decides which alternative a failed prediction falls back to
+            && self
+                .configs
+                .iter()
+                .map(|c| c.get_reaches_into_outer_context() > 0)
+                .eq(other
+                    .configs
+                    .iter()
+                    .map(|c| c.get_reaches_into_outer_context() > 0))
     }
 }
 
-- 
2.43.0


From 86dbe7520177c18dff0003237b3605276c161702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:03 +0000
Subject: [PATCH 14/22] fix: do not reuse wildcard merges in full context
 prediction

The merge cache of a prediction was filled with merges that treat the
empty context as a wildcard and then reused for full context, where the
empty context means end of input. Stacks got lost that way, so a
prediction made right after computing new DFA states could differ from
the same prediction made with the DFA already filled.
---
 src/parser_atn_simulator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 02965b6..ab206a0 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -301,6 +301,8 @@ impl ParserATNSimulator {
                 );
                 local.dfa = Some(dfa);
 
+                // merges done so far treated the root as a wildcard, full context must not
+                local.merge_cache.clear();
                 let s0_closure = self.compute_start_state(
                     local.dfa().atn_start_state,
                     PredictionContext::from_rule_context::<T::Node>(
-- 
2.43.0


From 52b245a5538fe6020a4e2ac38d45bdcc091b66fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:15 +0000
Subject: [PATCH 15/22] fix: merge all the intervals an added interval covers

After merging one following interval the loop skipped the next one, so the
set could end up unsorted and contains() missed members; the parser then
refused valid input with 'extraneous input' or 'mismatched input'.
---
 src/interval_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval_set.rs b/src/interval_set.rs
index 9707c1f..935f054 100644
--- a/src/interval_set.rs
+++ b/src/interval_set.rs
@@ -134,8 +134,8 @@ impl IntervalSet {
                 *r = bigger;
                 // make sure we didn't just create an interval that
                 // should be merged with next interval in list
+                i += 1;
                 loop {
-                    i += 1;
                     let next = match self.intervals.get(i) {
                         Some(v) => v,
                         None => break,
-- 
2.43.0


From e47d2961d2140b17c5716740edbbbdf693707c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:27 +0000
Subject: [PATCH 16/22] fix: identify parse listeners by id, not by address

---
 src/parser.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0e4bf08..eeca916 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4,6 +4,7 @@ use std::cell::{Cell, RefCell};
 use std::marker::PhantomData;
 use std::ops::{Deref, DerefMut};
 use std::rc::Rc;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Arc;
 
 use crate::atn::ATN;
@@ -147,7 +148,7 @@ pub struct BaseParser<
     enter_event_pending: bool,
     /// address of the context that was exited last, if nothing was entered since
     exited_ctx: usize,
-    parse_listeners: Vec<Box<T>>,
+    parse_listeners: Vec<(usize, Box<T>)>,
     _syntax_errors: Cell<isize>,
     error_listeners: RefCell<Vec<Box<dyn ErrorListener<'input, Self>>>>,
 
@@ -278,7 +279,7 @@ where
                     .as_deref()
                     .unwrap()
                     .add_child(node.clone().coerce_rc_to());
-                for listener in &mut self.parse_listeners {
+                for (_, listener) in &mut self.parse_listeners {
                     listener.visit_error_node(&*node)
                 }
             } else {
@@ -287,7 +288,7 @@ where
                     .as_deref()
                     .unwrap()
                     .add_child(node.clone().coerce_rc_to());
-                for listener in &mut self.parse_listeners {
+                for (_, listener) in &mut self.parse_listeners {
                     listener.visit_terminal(&*node)
                 }
             }
@@ -484,8 +485,9 @@ where
     where
         L: CoerceTo<T>,
     {
-        let id = ListenerId::new(&listener);
-        self.parse_listeners.push(listener.coerce_box_to());
+        let id = ListenerId::new();
+        self.parse_listeners
+            .push((id.actual_id, listener.coerce_box_to()));
         id
     }
 
@@ -498,9 +500,9 @@ where
         let index = self
             .parse_listeners
             .iter()
-            .position(|it| ListenerId::new(it).actual_id == listener_id.actual_id)
+            .position(|(id, _)| *id == listener_id.actual_id)
             .expect("listener not found");
-        unsafe { listener_id.into_listener(self.parse_listeners.remove(index)) }
+        unsafe { listener_id.into_listener(self.parse_listeners.remove(index).1) }
     }
 
     /// Removes all added parse listeners without returning them
@@ -511,7 +513,7 @@ where
     pub fn trigger_enter_rule_event(&mut self) {
         self.exited_ctx = 0;
         let ctx = self.ctx.as_deref().unwrap();
-        for listener in self.parse_listeners.iter_mut() {
+        for (_, listener) in self.parse_listeners.iter_mut() {
             // listener.enter_every_rule(ctx);
             ctx.enter(listener);
         }
@@ -520,7 +522,7 @@ where
     pub fn trigger_exit_rule_event(&mut self) {
         let ctx = self.ctx.as_deref().unwrap();
         self.exited_ctx = ctx as *const Ctx::Type as *const () as usize;
-        for listener in self.parse_listeners.iter_mut().rev() {
+        for (_, listener) in self.parse_listeners.iter_mut().rev() {
             ctx.exit(listener);
             // listener.exit_every_rule(ctx);
         }
@@ -720,10 +722,14 @@ pub struct ListenerId<T: ?Sized> {
     phantom: PhantomData<fn() -> T>,
 }
 
+static NEXT_LISTENER_ID: AtomicUsize = AtomicUsize::new(0);
+
 impl<T: ?Sized> ListenerId<T> {
-    fn new(listener: &Box<T>) -> ListenerId<T> {
+    // The address of a listener does not identify it: zero-sized listeners share one and it is
+    // reused once a listener is dropped.
+    fn new() -> ListenerId<T> {
         ListenerId {
-            actual_id: listener.as_ref() as *const T as *const () as usize,
+            actual_id: NEXT_LISTENER_ID.fetch_add(1, Ordering::Relaxed),
             phantom: Default::default(),
         }
     }
-- 
2.43.0


From b0fd537db208bd31d46454350f8b2e46c00d054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 17/22] fix: return the token a lexer action supplies

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 88fefcd..d0d3800 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -381,8 +381,8 @@ where
 
             if self.token.is_none() {
                 self.emit();
-                break;
             }
+            break;
         }
         self.input().release(_marker);
         self.token.take().unwrap()
-- 
2.43.0


From c9747b660c3476c49b6b14733de15b077bcdef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:01 +0000
Subject: [PATCH 18/22] fix: set_line of the lexer simulator sets the line, not
 the column

---
 src/lexer_atn_simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 3d9b43d..1d37fbb 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -117,7 +117,7 @@ impl ILexerATNSimulator for LexerATNSimulator {
     }
 
     fn set_line(&mut self, line: isize) {
-        self.current_pos.char_position_in_line.set(line)
+        self.current_pos.line.set(line)
     }
 
     fn consume<T: IntStream + ?Sized>(&self, _input: &mut T) {
-- 
2.43.0


From d5ec01edd3d3d204a53a60a233775928fe112338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 19/22] fix: keep the operands of combined predicates in the
 order they are met

---
 src/semantic_context.rs | 54 ++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/semantic_context.rs b/src/semantic_context.rs
index a32f5e9..e227e2c 100644
--- a/src/semantic_context.rs
+++ b/src/semantic_context.rs
@@ -1,7 +1,6 @@
 use std::borrow::Cow::{Borrowed, Owned};
 use std::borrow::{Borrow, Cow};
 use std::cmp::Ordering;
-use std::collections::HashSet;
 
 use crate::parser::{Parser, ParserNodeType};
 
@@ -137,57 +136,49 @@ impl SemanticContext {
     }
 
     pub fn new_and(a: &SemanticContext, b: &SemanticContext) -> SemanticContext {
-        let mut operands = HashSet::new();
-        if let SemanticContext::AND(ops) = a {
-            operands.extend(ops.iter().cloned())
-        } else {
-            operands.insert(a.clone());
-        }
-        if let SemanticContext::AND(ops) = b {
-            operands.extend(ops.iter().cloned())
-        } else {
-            operands.insert(b.clone());
+        let mut operands = vec![];
+        for &it in &[a, b] {
+            if let SemanticContext::AND(ops) = it {
+                ops.iter().for_each(|it| add_operand(&mut operands, it));
+            } else {
+                add_operand(&mut operands, it);
+            }
         }
 
         let precedence_predicates = filter_precedence_predicate(&mut operands);
         if !precedence_predicates.is_empty() {
             let reduced = precedence_predicates.iter().min_by(sort_prec_pred);
-            operands.insert(reduced.unwrap().clone());
+            operands.push(reduced.unwrap().clone());
         }
 
         if operands.len() == 1 {
             return operands.into_iter().next().unwrap();
         }
 
-        SemanticContext::AND(operands.into_iter().collect())
+        SemanticContext::AND(operands)
     }
 
     pub fn new_or(a: &SemanticContext, b: &SemanticContext) -> SemanticContext {
-        let mut operands = HashSet::new();
-        if let SemanticContext::OR(ops) = a {
-            operands.extend(ops.iter().cloned())
-        } else {
-            operands.insert(a.clone());
-        }
-        if let SemanticContext::OR(ops) = b {
-            ops.iter().for_each(|it| {
-                operands.insert(it.clone());
-            });
-        } else {
-            operands.insert(b.clone());
+        let mut operands = vec![];
+        for &it in &[a, b] {
+            if let SemanticContext::OR(ops) = it {
+                ops.iter().for_each(|it| add_operand(&mut operands, it));
+            } else {
+                add_operand(&mut operands, it);
+            }
         }
 
         let precedence_predicates = filter_precedence_predicate(&mut operands);
         if !precedence_predicates.is_empty() {
             let reduced = precedence_predicates.iter().max_by(sort_prec_pred);
-            operands.insert(reduced.unwrap().clone());
+            operands.push(reduced.unwrap().clone());
         }
 
         if operands.len() == 1 {
             return operands.into_iter().next().unwrap();
         }
 
-        SemanticContext::OR(operands.into_iter().collect())
+        SemanticContext::OR(operands)
     }
 
     pub fn and(
@@ -239,7 +230,14 @@ fn sort_prec_pred(a: &&SemanticContext, b: &&SemanticContext) -> Ordering {
     }
 }
 
-fn filter_precedence_predicate(collection: &mut HashSet<SemanticContext>) -> Vec<SemanticContext> {
+/// operands are kept in the order they are met: equal contexts have to compare equal
+fn add_operand(operands: &mut Vec<SemanticContext>, it: &SemanticContext) {
+    if !operands.contains(it) {
+        operands.push(it.clone());
+    }
+}
+
+fn filter_precedence_predicate(collection: &mut Vec<SemanticContext>) -> Vec<SemanticContext> {
     let mut result = vec![];
     collection.retain(|it| {
         if let SemanticContext::Precedence(_) = it {
-- 
2.43.0


From 53b5ac597cd08a32017401e8373a198064dbd2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 20/22] fix: leave the state of the caller when a
 left-recursive rule ends

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index eeca916..379ce89 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -659,6 +659,9 @@ where
             self.ctx = parent_ctx;
         }
 
+        // as `exit_rule` does, so that the rule called next on this parser knows who called it
+        self.set_state(retctx.get_invoking_state());
+
         //self.ctx is now parent
         retctx.set_parent(&self.ctx);
 
-- 
2.43.0


From 5d4081bd4d2beed684e2e4ca7552e4a4817c8893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:45 +0000
Subject: [PATCH 21/22] fix: do not make up the same missing token over and
 over

While recovering, a prediction may enter a loop whose body then only makes up
a missing token, in front of a token that the recovery does not consume: the
loop came back to the same place and the parser never ended, adding nodes to
the tree until memory ran out. Recursive rules did the same on the stack. A
token that was just made up at that place is not made up once more, so that
the failsafe of `recover` gets hold of it.
---
 src/error_strategy.rs | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 04025ad..6329546 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -1,5 +1,6 @@
 //! Error handling and recovery
 use std::borrow::Borrow;
+use std::collections::{HashMap, HashSet};
 use std::error::Error;
 use std::fmt;
 use std::fmt::{Display, Formatter};
@@ -146,6 +147,9 @@ pub struct DefaultErrorStrategy<'input, Ctx: ParserNodeType<'input>> {
     last_error_states: Option<IntervalSet>,
     next_tokens_state: isize,
     next_tokens_ctx: Option<Rc<Ctx::Type>>,
+    /// Token index and the places where missing tokens have been made up
+    /// in front of that token: states and chains of invoking states
+    insertions: (isize, HashMap<isize, HashSet<Vec<isize>>>),
 }
 
 better_any::tid! { impl<'i,Ctx> TidAble<'i> for DefaultErrorStrategy<'i,Ctx> where Ctx: ParserNodeType<'i>}
@@ -165,6 +169,7 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             last_error_states: None,
             next_tokens_state: ATNSTATE_INVALID_STATE_NUMBER,
             next_tokens_ctx: None,
+            insertions: (-1, HashMap::new()),
         }
     }
 
@@ -182,6 +187,7 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
         self.error_recovery_mode = false;
         self.last_error_index = -1;
         self.last_error_states = None;
+        self.insertions.1.clear();
     }
 
     fn report_no_viable_alternative<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
@@ -284,13 +290,42 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             atn.states[next].as_ref(),
             Some(recognizer.get_parser_rule_context().deref()),
         );
-        if expect_at_ll2.contains(current_token) {
+        if expect_at_ll2.contains(current_token) && self.is_new_insertion(recognizer) {
             self.report_missing_token(recognizer);
             return true;
         }
         false
     }
 
+    /// Failsafe: as long as nothing is consumed, a loop may come back to the token it has
+    /// just made up, and recursion to the same token deeper in. Making it up once more
+    /// would go on forever.
+    fn is_new_insertion<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
+        &mut self,
+        recognizer: &mut T,
+    ) -> bool {
+        let index = recognizer.get_input_stream_mut().index();
+        if self.insertions.0 != index {
+            self.insertions = (index, HashMap::new());
+        }
+        let mut chain = vec![];
+        let mut ctx = Some(recognizer.get_parser_rule_context().clone());
+        while let Some(c) = ctx {
+            chain.push(c.get_invoking_state());
+            ctx = c.get_parent_ctx();
+        }
+        let chains = self
+            .insertions
+            .1
+            .entry(recognizer.get_state())
+            .or_insert_with(HashSet::new);
+        if chains.iter().any(|it| it.len() < chain.len()) {
+            return false;
+        }
+        chains.retain(|it| it.len() == chain.len());
+        chains.insert(chain)
+    }
+
     fn single_token_deletion<'a, T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
         &mut self,
         recognizer: &'a mut T,
-- 
2.43.0


From 22db704839cb9e93827855312f386fc7e5fc1e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 22/22] fix: expected tokens of an error saved before a left
 recursive rule was extended

---
 src/atn.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/atn.rs b/src/atn.rs
index 30c8c56..6586cf6 100644
--- a/src/atn.rs
+++ b/src/atn.rs
@@ -11,7 +11,7 @@ use crate::parser::ParserNodeType;
 use crate::rule_context::EmptyContextType;
 use crate::token::{TOKEN_EOF, TOKEN_EPSILON};
 use crate::token_factory::CommonTokenFactory;
-use crate::transition::RuleTransition;
+use crate::transition::{RuleTransition, TransitionType};
 use std::fmt::{Debug, Formatter};
 
 pub const INVALID_ALT: isize = 0;
@@ -160,6 +160,11 @@ impl ATN {
 
             let invoking_state = self.states[state as usize].as_ref();
             let tr = invoking_state.get_transitions().first().unwrap().as_ref();
+            if tr.get_serialization_type() != TransitionType::TRANSITION_RULE {
+                // Left recursive rule was extended since, this context is an operand now.
+                // Its parent has replaced it and knows where the rule was called
+                continue;
+            }
             let tr = tr.cast::<RuleTransition>();
             following = self.next_tokens(self.states[tr.follow_state].as_ref());
             expected.add_set(following);
-- 
2.43.0

