From 2432c727a34d715642671e3e04751ffe0d4fc842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:10 +0000
Subject: [PATCH 01/19] fix: report range quantifiers just above u32::MAX as
 invalid

The multiplication was checked for overflow but the addition of the last
digit was not, so `{4294967296}` panicked in debug builds and wrapped around
to `{0}` in release builds.
---
 pango-lexer/src/regex/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index aab53fd..327ce3d 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -384,7 +384,7 @@ impl<'a> Tokenizer<'a> {
     fn take_next_decimals_and_convert_to_u32(&mut self, start: Option<u32>) -> Option<u32> {
         (&mut self.iter)
             .cautious_map_while(|(_, ch)| ch.to_digit(10))
-            .fold(start.or(Some(0)), |acc, d| Some(acc?.checked_mul(10)? + d))
+            .fold(start.or(Some(0)), |acc, d| acc?.checked_mul(10)?.checked_add(d))
     }
 
     /// Returns the end position of the current token.
-- 
2.43.0


From c34074033126c6b7622a31bab213955d08c0cedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:10 +0000
Subject: [PATCH 02/19] fix: take exactly the digits of an escaped code point

The digit limit of `\xHH`, `\uHHHH` and `\u{HHHHH}` was ignored. Hexadecimal
characters after the escape were swallowed (`\x41b` was rejected), and a
`\uHHHH` escape with less than four digits was accepted.
---
 pango-lexer/src/regex/tokenizer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index 327ce3d..4495e55 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -338,9 +338,13 @@ impl<'a> Tokenizer<'a> {
                         let hex1 = ch.to_digit(16)?;
 
                         // Note: The first character has already been consumed.
-                        let (_, character_code) =
+                        let (digit_amount, character_code) =
                             self.take_next_hexadecimals_and_convert_to_u32(4, Some(hex1))?;
 
+                        if digit_amount != 4 {
+                            return None;
+                        }
+
                         char::from_u32(character_code)
                     }
                 }
@@ -351,8 +355,8 @@ impl<'a> Tokenizer<'a> {
     }
 
     /// Returns the count of digits and converts them to [`u32`] including the
-    /// starting digit if present. Takes all hexadecimals it can take.
-    /// It only returns `Some` when the amount was the expected amount.
+    /// starting digit if present. Takes at most `max_digits` hexadecimals,
+    /// including the starting digit.
     fn take_next_hexadecimals_and_convert_to_u32(
         &mut self,
         max_digits: usize,
@@ -374,6 +378,7 @@ impl<'a> Tokenizer<'a> {
         self.iter
             .by_ref()
             .cautious_map_while(|(_, ch)| ch.to_digit(16))
+            .take(max_digits - digit_count as usize)
             .fold(Some((digit_count, start)), |acc, d| {
                 acc.map(|(digit_count, n)| (digit_count + 1, (n << 4) + d))
             })
-- 
2.43.0


From 0b2701a5a366f338fa22bec352236d2a7d0bd25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:57 +0000
Subject: [PATCH 03/19] fix: reject empty sub expressions

The grammar requires at least one item in a sub expression, but `()`, `(a|)`,
`|a` and `)` were parsed into an empty concatenation. Compiling that to an NFA
panicked.
---
 pango-lexer/src/regex/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pango-lexer/src/regex/parser.rs b/pango-lexer/src/regex/parser.rs
index 05eb250..eee50c9 100644
--- a/pango-lexer/src/regex/parser.rs
+++ b/pango-lexer/src/regex/parser.rs
@@ -154,6 +154,13 @@ impl<'a> Parser<'a> {
             literals.push(self.sub_expression_item()?);
         }
 
+        if literals.is_empty() {
+            return Err(W(vec![ParseError {
+                kind: ParseErrorKind::SubExpression,
+                pos: self.get_current_token_position(),
+            }]));
+        }
+
         Ok(literals)
     }
 
-- 
2.43.0


From d0584579afa86717a90b2537cd8a0964521c41b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:57 +0000
Subject: [PATCH 04/19] fix: reject regexes with an unmatched right parenthesis

The parser stopped at the first unmatched `)` and silently ignored the rest of
the regex, so `a)b` was the same token as `a`.
---
 pango-lexer/src/regex/parser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/regex/parser.rs b/pango-lexer/src/regex/parser.rs
index eee50c9..9bb64dd 100644
--- a/pango-lexer/src/regex/parser.rs
+++ b/pango-lexer/src/regex/parser.rs
@@ -100,7 +100,19 @@ impl<'a> Parser<'a> {
             return Ok(Ast(ast::ExprKind::Empty));
         }
 
-        match self.expression() {
+        let result = self.expression().and_then(|expr| {
+            // The expression only stops before the end of the input on an unmatched
+            // RIGHT_PAREN.
+            match self.tokens.peek() {
+                None => Ok(expr),
+                Some(_) => Err(W(vec![ParseError {
+                    kind: ParseErrorKind::LeftParan,
+                    pos: self.get_current_token_position(),
+                }])),
+            }
+        });
+
+        match result {
             Ok(expr) => Ok(Ast(expr)),
             Err(mut errs) => {
                 self.errors.append(&mut errs.0);
-- 
2.43.0


From e2bad008f558618b01e4a5cadcebbab5f819265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:57 +0000
Subject: [PATCH 05/19] fix: keep the last item of a cached peekable at the end
 of the iterator

Reading past the end cleared the item the iterator is on. The regex tokenizer
and parser use that item for positions, so the end of `ab\` was reported at
(2, 1) and the missing parenthesis of `(ab` at (0, 1).
---
 pango-lexer/src/iter/peekable.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/iter/peekable.rs b/pango-lexer/src/iter/peekable.rs
index 7f0c849..a2031ef 100644
--- a/pango-lexer/src/iter/peekable.rs
+++ b/pango-lexer/src/iter/peekable.rs
@@ -168,7 +168,11 @@ where
     type Item = I::Item;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.current.insert(self.iter.next()).clone()
+        let next = self.iter.next();
+        if next.is_some() {
+            self.current = Some(next.clone());
+        }
+        next
     }
 }
 
-- 
2.43.0


From 9464603b94651f7b0589ea9d4341a0abe11758d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:57 +0000
Subject: [PATCH 06/19] fix: keep characters that are waiting to be read again

When a token ended before all characters of the previous token suffix were
read again, the unread ones were dropped. With the tokens `a`, `b` and
`abbbbc`, the input `abbbbd` lost two of its four `b` tokens.
---
 pango-lexer/src/lexer/input.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 668df14..ca3b751 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -74,7 +74,7 @@ impl<'a> InputIter<'a> {
     /// Takes the currently built/accepted token from the iterator and moves the
     /// not accepted part of the input so it is used for the next token.
     pub(super) fn consume_token(&mut self) -> InputIterToken {
-        self.prev_characters_iter = std::mem::take(&mut self.token_suffix).into_iter();
+        self.unread_suffix();
         let new_token = InputIterToken {
             // OPTIMIZATION: Assume that the string length of the new token will at least be half
             // of the previous token.
@@ -86,6 +86,16 @@ impl<'a> InputIter<'a> {
         std::mem::replace(&mut self.current_token, new_token)
     }
 
+    /// Moves the not accepted part of the input in front of the part that has
+    /// not been read yet.
+    fn unread_suffix(&mut self) {
+        self.prev_characters_iter = std::mem::take(&mut self.token_suffix)
+            .into_iter()
+            .chain(self.prev_characters_iter.by_ref())
+            .collect::<Vec<_>>()
+            .into_iter();
+    }
+
     /// Returns a read-only reference to the [`InputIterToken`] being built.
     pub(super) fn get_token(&self) -> &InputIterToken {
         &self.current_token
-- 
2.43.0


From 856ca60aab4145c063cb24d843ab069ec6bce2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:57 +0000
Subject: [PATCH 07/19] fix: return the longest token when the input ends
 inside a longer one

With the tokens `a`, `b` and `abbc`, the input `abb` resulted in no tokens at
all, because the simulator is not accepting at the end of the input. The token
accepted before that is still the longest match.
---
 pango-lexer/src/lexer/mod.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index 110072f..4f00df7 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -110,13 +110,9 @@ where
             }
         }
 
-        if sim.is_accepting() {
-            token_kind.map(|token_kind| {
-                Token::from_input_iter_token(self.iter.consume_token(), token_kind)
-            })
-        } else {
-            None
-        }
+        // the end of the input is reached, which also ends the longest token
+        token_kind
+            .map(|token_kind| Token::from_input_iter_token(self.iter.consume_token(), token_kind))
     }
 }
 
-- 
2.43.0


From d31448f3a1fc9e08e306c37f934b835b30403a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:57 +0000
Subject: [PATCH 08/19] fix: do not merge unmatched input into a later token

After the lexer ran into input that matches no token, the unmatched characters
stayed in the token suffix. Asking for another token then returned a token with
those characters in front of it. Put them back instead.
---
 pango-lexer/src/lexer/input.rs |  2 +-
 pango-lexer/src/lexer/mod.rs   | 19 +++++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index ca3b751..45c38da 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -88,7 +88,7 @@ impl<'a> InputIter<'a> {
 
     /// Moves the not accepted part of the input in front of the part that has
     /// not been read yet.
-    fn unread_suffix(&mut self) {
+    pub(super) fn unread_suffix(&mut self) {
         self.prev_characters_iter = std::mem::take(&mut self.token_suffix)
             .into_iter()
             .chain(self.prev_characters_iter.by_ref())
diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index 4f00df7..776861b 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -73,9 +73,7 @@ where
             if !sim.can_feed(ch) {
                 // the current token is the longest token we can 'munch'
 
-                return token_kind.map(|token_kind| {
-                    Token::from_input_iter_token(self.iter.consume_token(), token_kind)
-                });
+                break;
             }
 
             if sim.feed(ch) {
@@ -110,9 +108,18 @@ where
             }
         }
 
-        // the end of the input is reached, which also ends the longest token
-        token_kind
-            .map(|token_kind| Token::from_input_iter_token(self.iter.consume_token(), token_kind))
+        // the end of the input also ends the longest token
+        match token_kind {
+            Some(token_kind) => Some(Token::from_input_iter_token(
+                self.iter.consume_token(),
+                token_kind,
+            )),
+            None => {
+                // no token starts here, so the input that has been read stays unread
+                self.iter.unread_suffix();
+                None
+            }
+        }
     }
 }
 
-- 
2.43.0


From 486283e00b130bfa75e6c451571448bfbdd6e868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:33 +0000
Subject: [PATCH 09/19] fix: stop counting state visits when the count makes no
 difference

The epsilon closure of the simulator never ended for a quantified expression
that can be empty, such as `(a*)*` or `(a?)+`. Every round through the empty
expression raised the visit count, which made it a new run. Limit the count to
the highest value that matters for the quantifier, so there are only finitely
many runs.
---
 pango-lexer/src/fsm/nfa/model.rs   | 13 +++++++++++++
 pango-lexer/src/fsm/nfa/sim.rs     | 27 ++++++++++++++++++---------
 pango-lexer/src/regex/tokenizer.rs | 14 ++++++++++++++
 3 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/model.rs b/pango-lexer/src/fsm/nfa/model.rs
index f0bf32b..46c4bf4 100644
--- a/pango-lexer/src/fsm/nfa/model.rs
+++ b/pango-lexer/src/fsm/nfa/model.rs
@@ -149,6 +149,19 @@ impl State {
     fn with_id(id: StateId, fin: bool) -> Self {
         Self::new(id, fin, Transitions::new())
     }
+
+    /// Returns the visit count of the [`State`] after which counting further
+    /// makes no difference for its quantified transitions.
+    pub(super) fn get_count_limit(&self) -> usize {
+        self.transitions
+            .keys()
+            .map(|input| match input {
+                Input::Quantified(quantifier) => quantifier.count_limit(),
+                _ => 0,
+            })
+            .max()
+            .unwrap_or(0)
+    }
 }
 
 /// Builder struct for the [`Nfa`].
diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index dd08984..feaf64c 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -40,14 +40,19 @@ impl Run {
     }
 
     /// Updates the [`Run`] to the new state and updates the needed state
-    /// counters.
-    fn take_transition(mut self, new_state_id: StateId, quantified: bool) -> Self {
+    /// counters. The state count does not go above the `count_limit`.
+    fn take_transition(
+        mut self,
+        new_state_id: StateId,
+        quantified: bool,
+        count_limit: usize,
+    ) -> Self {
         let count = self.state_counters.entry(self.state_id).or_insert(0);
         if quantified {
             // Reset the state count if quantified transition is used
             *count = 0;
         } else {
-            *count += 1;
+            *count = (*count + 1).min(count_limit);
         }
         self.state_id = new_state_id;
 
@@ -79,7 +84,7 @@ impl<'a> NfaSimulator<'a> {
                 state_counters,
             } = &run;
 
-            let State { transitions, .. } = self.nfa.get_state(*state_id);
+            let state @ State { transitions, .. } = self.nfa.get_state(*state_id);
 
             let transitions_taken = transitions
                 .iter()
@@ -99,9 +104,10 @@ impl<'a> NfaSimulator<'a> {
                 })
                 .flatten();
 
-            let new_runs = transitions_taken
-                .into_iter()
-                .map(|(new_state, quantified)| run.clone().take_transition(*new_state, quantified));
+            let new_runs = transitions_taken.into_iter().map(|(new_state, quantified)| {
+                run.clone()
+                    .take_transition(*new_state, quantified, state.get_count_limit())
+            });
 
             for new_run in new_runs {
                 if result.insert(new_run.clone()) {
@@ -137,7 +143,7 @@ impl Simulate for NfaSimulator<'_> {
         let mut updated_runs = Vec::new();
 
         for run @ Run { state_id, .. } in self.runs.iter() {
-            let State { transitions, .. } = self.nfa.get_state(*state_id);
+            let state @ State { transitions, .. } = self.nfa.get_state(*state_id);
 
             // Check for every transition if the input can make that transition.
 
@@ -161,7 +167,10 @@ impl Simulate for NfaSimulator<'_> {
 
             let new_runs = new_state_ids
                 .into_iter()
-                .map(|new_state_id| run.clone().take_transition(*new_state_id, false))
+                .map(|new_state_id| {
+                    run.clone()
+                        .take_transition(*new_state_id, false, state.get_count_limit())
+                })
                 .flat_map(|new_run| self.eps_closure(new_run));
 
             updated_runs.extend(new_runs);
diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index 4495e55..3242da9 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -418,6 +418,20 @@ impl QuantifierKind {
             }
         }
     }
+
+    /// Returns a count for which all higher counts satisfy the quantifier
+    /// exactly when this count does.
+    pub(crate) fn count_limit(&self) -> usize {
+        match self {
+            QuantifierKind::Asterisk => 0,
+            QuantifierKind::Plus => 1,
+            QuantifierKind::QuestionMark => 2,
+            QuantifierKind::Range(QuantifierRangeKind::Min(min)) => *min as usize,
+            QuantifierKind::Range(
+                QuantifierRangeKind::Max(max) | QuantifierRangeKind::Range(_, max),
+            ) => (*max as usize).saturating_add(1),
+        }
+    }
 }
 
 impl ClassKind {
-- 
2.43.0


From cad1a61d303838277421c7af2463139a39f978aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:33 +0000
Subject: [PATCH 10/19] fix: keep a single copy of every simulator run

Runs reached in more than one way were kept multiple times. The amount of runs
of `(a|.)*` doubled with every character that was fed.
---
 pango-lexer/src/fsm/nfa/sim.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index feaf64c..c4ecec3 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -140,7 +140,7 @@ impl Simulate for NfaSimulator<'_> {
     }
 
     fn feed(&mut self, input: char) -> bool {
-        let mut updated_runs = Vec::new();
+        let mut updated_runs = HashSet::new();
 
         for run @ Run { state_id, .. } in self.runs.iter() {
             let state @ State { transitions, .. } = self.nfa.get_state(*state_id);
@@ -176,7 +176,7 @@ impl Simulate for NfaSimulator<'_> {
             updated_runs.extend(new_runs);
         }
 
-        self.runs = updated_runs;
+        self.runs = updated_runs.into_iter().collect();
 
         #[cfg(debug_assertions)]
         {
-- 
2.43.0


From 19e77b244fd24841d2db421e577d54f07b5c1876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:33 +0000
Subject: [PATCH 11/19] fix: count the state visits of the initial runs

The simulator started with the static epsilon closure of the start state, which
does not count the visits made on the way. `(a{2}){3}` therefore matched four
pairs, and a nested quantifier at the start of a regex was counted one short.
Use the runtime closure for the first runs as well.
---
 pango-lexer/src/fsm/nfa/model.rs | 46 +-------------------------------
 pango-lexer/src/fsm/nfa/sim.rs   | 14 +++++-----
 2 files changed, 9 insertions(+), 51 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/model.rs b/pango-lexer/src/fsm/nfa/model.rs
index 46c4bf4..698ceb0 100644
--- a/pango-lexer/src/fsm/nfa/model.rs
+++ b/pango-lexer/src/fsm/nfa/model.rs
@@ -1,6 +1,6 @@
 use super::StateId;
 use crate::regex::{ast, tokenizer::QuantifierKind};
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 // TODO: Clean up expects and panics to be `Option` and `Result` types.
 
@@ -76,50 +76,6 @@ impl Nfa {
     pub(super) fn get_final_states(&self) -> impl Iterator<Item = &State> + '_ {
         self.states.iter().filter(|s| s.fin)
     }
-
-    /// Returns an iterator over references to all states in the static epsilon
-    /// closure of the given state.
-    ///
-    /// This implementation of the NFA uses quantified transitions which can
-    /// only be taken when the state has been visited 'x' amount of times.
-    /// This is useful to prevent the exponential growth of the NFA when
-    /// compiling complex regex quantifiers. However, this means that state
-    /// counting has to be done at 'run-time' of the NFA. Information which is
-    /// not known to the [`NfaModel`](self::Nfa). Instaid a state is always
-    /// assumed to be visited 0 times, when trying quantified transitions.
-    pub(super) fn eps_closure(&self, state_id: StateId) -> impl Iterator<Item = StateId> {
-        let mut not_visited = VecDeque::from([state_id]);
-        let mut result = BTreeSet::from([state_id]);
-
-        while let Some(state_id) = not_visited.pop_front() {
-            let State { transitions, .. } = self.get_state(state_id);
-
-            let new_state_ids = transitions
-                .iter()
-                .filter_map(|(input, states)| -> Option<Box<dyn Iterator<Item = _>>> {
-                    match input {
-                        Input::Literal(_) => None,
-                        Input::Eps => Some(Box::new(states.iter())),
-                        Input::Quantified(quantifier) => {
-                            if quantifier.is_satisfied(0) {
-                                Some(Box::new(states.iter()))
-                            } else {
-                                None
-                            }
-                        }
-                    }
-                })
-                .flatten();
-
-            for state_id in new_state_ids {
-                if result.insert(*state_id) {
-                    not_visited.push_back(*state_id)
-                }
-            }
-        }
-
-        result.into_iter()
-    }
 }
 
 impl Input {
diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index c4ecec3..8a822b6 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -63,12 +63,14 @@ impl Run {
 impl<'a> NfaSimulator<'a> {
     /// Creates a new [`NfaSimulator`].
     fn new(nfa: Cow<'a, Nfa>) -> Self {
-        let runs = nfa
-            .eps_closure(nfa.start_state)
-            .map(Run::new)
-            .collect::<Vec<_>>();
-
-        Self { nfa, runs }
+        let start_run = Run::new(nfa.start_state);
+        let mut sim = Self {
+            nfa,
+            runs: Vec::new(),
+        };
+        sim.runs = sim.eps_closure(start_run).collect();
+
+        sim
     }
 
     /// Returns an iterator over the runtime epsilon closure. This is an epsilon
-- 
2.43.0


From f67feb2b49d8a44b99b9a139f3bac76e28ef7be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:32 +0000
Subject: [PATCH 12/19] fix: do not report the same action as a conflict

Two items reading the same terminal lead to the same shift action, which was
reported as a conflict. A grammar such as `S -> a b | a c` was refused for not
being SLR.
---
 pango-parser/src/parser/table.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 0b14ae4..3e60dd8 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -1,4 +1,10 @@
-use std::{collections::HashMap, fmt::Debug, hash::Hash, pin::Pin, ptr::NonNull};
+use std::{
+    collections::{hash_map::Entry, HashMap},
+    fmt::Debug,
+    hash::Hash,
+    pin::Pin,
+    ptr::NonNull,
+};
 
 use super::traits::{TerminalEq, TerminalHash};
 use crate::{
@@ -135,6 +141,7 @@ where
 
 impl<V, T> ParseTable<V, T>
 where
+    V: PartialEq,
     T: TerminalEq + TerminalHash,
 {
     fn insert_action(
@@ -150,16 +157,16 @@ where
         let state = table
             .get_mut(state)
             .expect("state should exist as the table has just been resized");
-        let mut occupied = true;
-        let _entry = state.entry(terminal).or_insert_with(|| {
-            occupied = false;
-            action
-        });
 
         // TODO: Return type of conflict
-        match occupied {
-            true => Err(()),
-            false => Ok(()),
+        match state.entry(terminal) {
+            Entry::Occupied(entry) if *entry.get() != action => Err(()),
+            // multiple items can lead to the same action
+            Entry::Occupied(_) => Ok(()),
+            Entry::Vacant(entry) => {
+                entry.insert(action);
+                Ok(())
+            }
         }
     }
 }
-- 
2.43.0


From 0ebd28bff95ea2042d95b51b47cf12e0c855f0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:32 +0000
Subject: [PATCH 13/19] fix: do not pop the stack for epsilon symbols when
 reducing

Epsilon is never pushed on the parse stack, but it was counted in the amount of
nodes to pop for a reduction. Reducing an empty body popped a node of another
rule, or panicked on an empty stack.
---
 pango-parser/src/cfsm/item.rs    | 9 +++++++++
 pango-parser/src/parser/table.rs | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pango-parser/src/cfsm/item.rs b/pango-parser/src/cfsm/item.rs
index 1e0d57b..1afab86 100644
--- a/pango-parser/src/cfsm/item.rs
+++ b/pango-parser/src/cfsm/item.rs
@@ -33,6 +33,15 @@ impl<V, T> ItemBody<V, T> {
         unsafe { self.body.as_ref() }
     }
 
+    /// Returns the amount of [`Symbol`]s in the [`Body`] which are read by the
+    /// bullet/cursor. [`Epsilon`](Symbol::Epsilon) is never read.
+    pub(crate) fn get_symbol_amount(&self) -> usize {
+        self.get_body()
+            .iter()
+            .filter(|s| !matches!(s, Symbol::Epsilon))
+            .count()
+    }
+
     /// Returns the [`Symbol`] the bullet/cursor is currently reading.
     pub(crate) fn get_cursor_symbol(&self) -> Option<&Symbol<V, T>> {
         self.get_body().get(self.cursor)
diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 3e60dd8..123bc40 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -105,7 +105,7 @@ where
                                 t,
                                 ActionKind::Reduce {
                                     variable: head,
-                                    amount: body.get_body().len(),
+                                    amount: body.get_symbol_amount(),
                                 },
                             )?;
                         }
@@ -119,7 +119,7 @@ where
                                 Terminal::Eof,
                                 ActionKind::Accept {
                                     variable: head,
-                                    amount: body.get_body().len(),
+                                    amount: body.get_symbol_amount(),
                                 },
                             )?;
                         }
-- 
2.43.0


From e5f369bdb1be7fefb368ca074f19296ad7a003ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:32 +0000
Subject: [PATCH 14/19] fix: reduce on the end of the input

A variable other than the start variable was never reduced when the end of the
input is the next symbol. Grammars such as `S -> A, A -> a` could not parse
anything. A start variable that nothing follows, such as in `S -> c`, did not
even get its accept action.
---
 pango-parser/src/grammar.rs      | 28 ++++++++++++++++++++++++++++
 pango-parser/src/parser/table.rs | 26 ++++++++++++++------------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/pango-parser/src/grammar.rs b/pango-parser/src/grammar.rs
index 5f877a2..b9aa6d2 100644
--- a/pango-parser/src/grammar.rs
+++ b/pango-parser/src/grammar.rs
@@ -373,6 +373,34 @@ where
 
         result
     }
+
+    /// Returns the variables that can be followed by the end of the input.
+    pub(super) fn followed_by_eof(&self) -> HashSet<V> {
+        let mut result = HashSet::from([self.start_variable]);
+        let mut pending_variables = VecDeque::from([self.start_variable]);
+
+        while let Some(head) = pending_variables.pop_front() {
+            for body in self.get_rule_bodies(head).into_iter().flatten() {
+                for symbol in body.iter().rev() {
+                    match symbol {
+                        Symbol::Epsilon => continue,
+                        Symbol::Terminal(_) => break,
+                        Symbol::Variable(v) => {
+                            if result.insert(*v) {
+                                pending_variables.push_back(*v);
+                            }
+
+                            if !self.first(*v).contains(&Symbol::Epsilon) {
+                                break;
+                            }
+                        }
+                    }
+                }
+            }
+        }
+
+        result
+    }
 }
 
 impl<V, T> Grammar<V, T>
diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 123bc40..00ba572 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -54,6 +54,7 @@ where
         let grammar = cfsm.get_grammar();
 
         let follow_set = grammar.follow_set();
+        let followed_by_eof = grammar.followed_by_eof();
 
         let (mut action, mut goto) = (ActionTable::new(), GotoTable::new());
 
@@ -86,11 +87,7 @@ where
                     }
                     None => {
                         // body of the form `S -> w •`
-                        let Some(follow) = follow_set.get(&head) else {
-                            continue;
-                        };
-
-                        for s in follow.iter() {
+                        for s in follow_set.get(&head).into_iter().flatten() {
                             let t = match s {
                                 Symbol::Terminal(t) => Terminal::T(t.into()),
                                 Symbol::Variable(_) => {
@@ -110,17 +107,22 @@ where
                             )?;
                         }
 
-                        if head == grammar.get_start_variable() {
-                            // reduce once to the start variable on a lookahead of eof, then
-                            // accept
+                        if followed_by_eof.contains(&head) {
+                            let (variable, amount) = (head, body.get_symbol_amount());
+
+                            // reduce to the start variable on a lookahead of eof, then accept
+                            // if it spans the whole input
+                            let eof_action = if head == grammar.get_start_variable() {
+                                ActionKind::Accept { variable, amount }
+                            } else {
+                                ActionKind::Reduce { variable, amount }
+                            };
+
                             Self::insert_action(
                                 &mut action,
                                 *state_id,
                                 Terminal::Eof,
-                                ActionKind::Accept {
-                                    variable: head,
-                                    amount: body.get_symbol_amount(),
-                                },
+                                eof_action,
                             )?;
                         }
                     }
-- 
2.43.0


From faaee98025ba1789e5342ed3e3ccf0d32368ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:32 +0000
Subject: [PATCH 15/19] fix: only accept when the start variable spans the
 whole input

A nested start variable at the end of the input was accepted right away, with
the nodes below it thrown away. With `S -> a S b | c` the input `ac` was
accepted, and right recursive grammars lost everything but the last node.
---
 pango-parser/src/parser/slr.rs | 58 +++++++++++++++-------------------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index c828220..e144a26 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -118,51 +118,45 @@ where
                 )),
                 state: *dest_state,
             },
-            ActionKind::Reduce { variable, amount } => {
+            ActionKind::Reduce { variable, amount } | ActionKind::Accept { variable, amount } => {
                 let children = stack
                     .drain((stack.len() - amount)..)
                     .map(|parse_node| parse_node.node)
                     .rev()
                     .collect();
 
-                let goto = self
-                    .table
-                    .goto
-                    .get(
-                        stack
-                            .last()
-                            .expect("at least one element should be remaining on the stack")
-                            .state,
-                    )
-                    .expect("state does not exist in the goto table");
-
-                let Some(new_state) = goto.get(variable) else {
-                    return Err(());
-                };
+                // The input is only accepted when the start variable spans all of it, meaning
+                // only the bottom of the stack is left. Otherwise, it is a regular reduction.
+                accept = matches!(action_kind, ActionKind::Accept { .. }) && stack.len() == 1;
 
-                ParseNode {
-                    node: Node {
-                        symbol: Symbol::Variable(*variable),
-                        children,
-                    },
-                    state: *new_state,
-                }
-            }
-            ActionKind::Accept { variable, amount } => {
-                let children = stack
-                    .drain((stack.len() - amount)..)
-                    .map(|parse_node| parse_node.node)
-                    .rev()
-                    .collect();
+                let state = if accept {
+                    // State does not matter here as the action is to accept
+                    StateId::default()
+                } else {
+                    let goto = self
+                        .table
+                        .goto
+                        .get(
+                            stack
+                                .last()
+                                .expect("at least one element should be remaining on the stack")
+                                .state,
+                        )
+                        .expect("state does not exist in the goto table");
+
+                    let Some(new_state) = goto.get(variable) else {
+                        return Err(());
+                    };
+
+                    *new_state
+                };
 
-                accept = true;
                 ParseNode {
                     node: Node {
                         symbol: Symbol::Variable(*variable),
                         children,
                     },
-                    // State does not matter here as the action is to accept
-                    state: StateId::default(),
+                    state,
                 }
             }
         };
-- 
2.43.0


From 21b6a7776224df500e87b71dc3f4ee971a1b910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:32 +0000
Subject: [PATCH 16/19] fix: return an error for states without actions

The tables only grow to the last state with an action or goto. Parsing panicked
when it got into a later state, for example with an unreachable rule
(`S -> c, A -> S b` on `cb`), instead of returning an error.
---
 pango-parser/src/parser/slr.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index e144a26..8420182 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -100,13 +100,13 @@ where
             None => Terminal::Eof,
         };
 
-        let action = self
+        // states without any action are not always part of the table
+        let Some(action_kind) = self
             .table
             .action
             .get(current_state)
-            .expect("state does not exist in the action table");
-
-        let Some(action_kind) = action.get(&terminal) else {
+            .and_then(|action| action.get(&terminal))
+        else {
             return Err(());
         };
 
@@ -133,7 +133,7 @@ where
                     // State does not matter here as the action is to accept
                     StateId::default()
                 } else {
-                    let goto = self
+                    let Some(new_state) = self
                         .table
                         .goto
                         .get(
@@ -142,9 +142,8 @@ where
                                 .expect("at least one element should be remaining on the stack")
                                 .state,
                         )
-                        .expect("state does not exist in the goto table");
-
-                    let Some(new_state) = goto.get(variable) else {
+                        .and_then(|goto| goto.get(variable))
+                    else {
                         return Err(());
                     };
 
-- 
2.43.0


From a7fe1fe337f57560cbd428f9246bbc5e91c1abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:32 +0000
Subject: [PATCH 17/19] fix: return an error when the input of the parser has
 invalid tokens

The lexer stops when no token matches the remaining input. The parser treated
that as the end of the input, so everything after the first invalid character
was ignored. Let the lexer report whether it is finished and check it.
---
 pango-lexer/src/lexer/input.rs |  5 +++++
 pango-lexer/src/lexer/mod.rs   | 10 ++++++++++
 pango-parser/src/parser/slr.rs |  5 +++++
 3 files changed, 20 insertions(+)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 45c38da..83d8e3c 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -71,6 +71,11 @@ impl<'a> InputIter<'a> {
         }
     }
 
+    /// Whether there are no more characters to read.
+    pub(super) fn is_empty(&self) -> bool {
+        self.prev_characters_iter.as_slice().is_empty() && self.iter.clone().next().is_none()
+    }
+
     /// Takes the currently built/accepted token from the iterator and moves the
     /// not accepted part of the input so it is used for the next token.
     pub(super) fn consume_token(&mut self) -> InputIterToken {
diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index 776861b..dc1c0cf 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -123,6 +123,16 @@ where
     }
 }
 
+impl<TokenKind, Fsm: Simulatable> Lexer<'_, TokenKind, Fsm> {
+    /// Whether all of the input has been turned into tokens.
+    ///
+    /// There is input left when the [`Lexer`] returns `None` because no token
+    /// matches.
+    pub fn is_finished(&self) -> bool {
+        self.iter.is_empty()
+    }
+}
+
 impl<TokenKind> Lexer<'_, TokenKind, Nfa> {
     /// Creates a `LexerGenerator`.
     pub fn builder() -> LexerGenerator<TokenKind> {
diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index 8420182..acd285a 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -70,6 +70,11 @@ where
             stack.push(parse_node);
         }
 
+        if !input.is_finished() {
+            // there is input left that is not a token
+            return Err(());
+        }
+
         // eof
         next_token = None;
         while let Ok((parse_node, accept)) =
-- 
2.43.0


From e1634bf058976e17264e3ec0dc7056709abe81f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:01 +0000
Subject: [PATCH 18/19] fix: leave unreachable rules out of the follow sets

Rules that cannot be reached from the start variable added symbols to the
follow sets that never follow. The parser then reduced where it should report
an error. With `S -> S | b, A -> S b`, the input `bb` made it reduce `S -> S`
forever.
---
 pango-parser/src/grammar.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pango-parser/src/grammar.rs b/pango-parser/src/grammar.rs
index b9aa6d2..d13741e 100644
--- a/pango-parser/src/grammar.rs
+++ b/pango-parser/src/grammar.rs
@@ -71,6 +71,25 @@ where
     pub(super) fn get_rule_bodies(&self, head: V) -> Option<&HashSet<Body<V, T>>> {
         self.rules.get(&head)
     }
+
+    /// Returns the variables that can appear in a derivation from the start
+    /// variable.
+    fn get_reachable_variables(&self) -> HashSet<V> {
+        let mut result = HashSet::from([self.start_variable]);
+        let mut pending_variables = VecDeque::from([self.start_variable]);
+
+        while let Some(head) = pending_variables.pop_front() {
+            for symbol in self.get_rule_bodies(head).into_iter().flatten().flatten() {
+                if let Symbol::Variable(v) = symbol {
+                    if result.insert(*v) {
+                        pending_variables.push_back(*v);
+                    }
+                }
+            }
+        }
+
+        result
+    }
 }
 
 mod body_iter {
@@ -291,9 +310,14 @@ where
         // map of dependencies (values are dependent on keys)
         let mut follow_dependencies: HashMap<V, HashSet<V>> = HashMap::new();
 
+        // rules that are never used in a derivation do not make symbols follow each
+        // other
+        let reachable_variables = self.get_reachable_variables();
+
         for (head, body) in self
             .rules
             .iter()
+            .filter(|(head, _)| reachable_variables.contains(head))
             .flat_map(|(head, bodies)| std::iter::repeat(*head).zip(bodies.iter()))
         {
             let mut iter = body.iter().peekable();
-- 
2.43.0


From 2e189d906e1693434a7d466627554869c884ed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:24:55 +0000
Subject: [PATCH 19/19] fix: return an error when reductions do not end

A variable that derives nothing can start with a variable that derives the
empty string. Reductions then go on without reading a token, and the stack
grew until the allocation failed.
---
 pango-parser/src/parser/slr.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index acd285a..baaee00 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -54,6 +54,8 @@ where
             },
             state: current_state,
         }]);
+        // index of the first node that was pushed after the last shift
+        let mut reduced_start = stack.len();
 
         while let Some(token) = next_token.or_else(|| input.next()) {
             next_token = Some(token);
@@ -67,7 +69,12 @@ where
             };
 
             current_state = parse_node.state;
-            stack.push(parse_node);
+            if next_token.is_some() {
+                Self::push_reduced(&mut stack, &mut reduced_start, parse_node)?;
+            } else {
+                stack.push(parse_node);
+                reduced_start = stack.len();
+            }
         }
 
         if !input.is_finished() {
@@ -87,13 +94,34 @@ where
             };
 
             current_state = parse_node.state;
-            stack.push(parse_node);
+            Self::push_reduced(&mut stack, &mut reduced_start, parse_node)?;
         }
 
         // never reached the accept call
         Err(())
     }
 
+    /// Pushes the result of a reduction. Without reading a token, a state that is reached again
+    /// on top of itself is reached forever, which means that there is no tree.
+    fn push_reduced(
+        stack: &mut Vec<ParseNode<V, T>>,
+        reduced_start: &mut usize,
+        parse_node: ParseNode<V, T>,
+    ) -> Result<(), ()> {
+        *reduced_start = stack.len().min(*reduced_start);
+
+        if stack
+            .iter()
+            .skip(*reduced_start)
+            .any(|ParseNode { state, .. }| *state == parse_node.state)
+        {
+            return Err(());
+        }
+
+        stack.push(parse_node);
+        Ok(())
+    }
+
     fn handle_token(
         &self,
         token: &mut Option<Token<T>>,
-- 
2.43.0

