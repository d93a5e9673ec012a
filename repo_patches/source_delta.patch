From d9a63472a50952da1424593d8191e0a7e870fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:12 +0000
Subject: [PATCH 01/22] fix: refuse overflowing repetition counts instead of
 panicking

A count such as {4294967296} passed the checked multiplication and then
overflowed in the unchecked addition of the last digit. That panicked with
overflow checks on and wrapped to a different count with them off.
---
 pango-lexer/src/regex/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index aab53fd..2e8ddba 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -384,7 +384,9 @@ impl<'a> Tokenizer<'a> {
     fn take_next_decimals_and_convert_to_u32(&mut self, start: Option<u32>) -> Option<u32> {
         (&mut self.iter)
             .cautious_map_while(|(_, ch)| ch.to_digit(10))
-            .fold(start.or(Some(0)), |acc, d| Some(acc?.checked_mul(10)? + d))
+            .fold(start.or(Some(0)), |acc, d| {
+                acc?.checked_mul(10)?.checked_add(d)
+            })
     }
 
     /// Returns the end position of the current token.
-- 
2.43.0


From a8c88918a5492c6f7ab9f21cd3c94b5c1884973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:12 +0000
Subject: [PATCH 02/22] fix: limit hexadecimal escapes to their own digits

\xHH and \uHHHH swallowed every following hexadecimal digit, so \x41B was
refused and \u27A1F was read as one code point. \uHHHH also accepted fewer
than four digits, and long digit runs silently wrapped around.
---
 pango-lexer/src/regex/tokenizer.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index 2e8ddba..a1aefd2 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -310,11 +310,11 @@ impl<'a> Tokenizer<'a> {
 
                 match ch {
                     '{' => {
-                        // Take the next four to five characters, interpret them as
+                        // Take the next four to six characters, interpret them as
                         // hexadecimal and return the unicode character.
 
                         let (digit_amount, character_code) =
-                            self.take_next_hexadecimals_and_convert_to_u32(5, None)?;
+                            self.take_next_hexadecimals_and_convert_to_u32(6, None)?;
 
                         if digit_amount < 4 {
                             return None;
@@ -338,9 +338,13 @@ impl<'a> Tokenizer<'a> {
                         let hex1 = ch.to_digit(16)?;
 
                         // Note: The first character has already been consumed.
-                        let (_, character_code) =
+                        let (digit_amount, character_code) =
                             self.take_next_hexadecimals_and_convert_to_u32(4, Some(hex1))?;
 
+                        if digit_amount != 4 {
+                            return None;
+                        }
+
                         char::from_u32(character_code)
                     }
                 }
@@ -351,8 +355,7 @@ impl<'a> Tokenizer<'a> {
     }
 
     /// Returns the count of digits and converts them to [`u32`] including the
-    /// starting digit if present. Takes all hexadecimals it can take.
-    /// It only returns `Some` when the amount was the expected amount.
+    /// starting digit if present. Takes at most `max_digits` hexadecimals.
     fn take_next_hexadecimals_and_convert_to_u32(
         &mut self,
         max_digits: usize,
@@ -374,6 +377,7 @@ impl<'a> Tokenizer<'a> {
         self.iter
             .by_ref()
             .cautious_map_while(|(_, ch)| ch.to_digit(16))
+            .take(max_digits - digit_count as usize)
             .fold(Some((digit_count, start)), |acc, d| {
                 acc.map(|(digit_count, n)| (digit_count + 1, (n << 4) + d))
             })
-- 
2.43.0


From 1afa2bf316f49b3c81ce129c558d21f0178efeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:12 +0000
Subject: [PATCH 03/22] fix: end a cut-off pattern token at the end of the
 pattern

A token cut off by the end of the pattern, such as a trailing backslash,
reported 1 as its end position, which can lie before its start.
---
 pango-lexer/src/regex/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index a1aefd2..a78505a 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -10,7 +10,6 @@ use proptest_derive::Arbitrary;
 /// Regex tokenenizer.
 pub(super) struct Tokenizer<'a> {
     /// The input the tokenizer is going to tokenize.
-    #[allow(unused)]
     pub(super) input: &'a str,
     /// Iterator over the characters in the input (as defined in the rust `char`
     /// type), along with their position in the input.
@@ -400,7 +399,8 @@ impl<'a> Tokenizer<'a> {
     fn get_token_end_cursor_pos(&mut self) -> usize {
         match self.iter.current() {
             Some((cursor_pos, _)) => cursor_pos + 1,
-            None => 1,
+            // the token was cut off by the end of the input
+            None => self.input.chars().count(),
         }
     }
 }
-- 
2.43.0


From d8d01390868728090a7bc3ed8d6aa77e8e47b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:43 +0000
Subject: [PATCH 04/22] fix: report pattern errors at the offending token

A missing closing parenthesis, closing bracket or range end was looked for by
consuming the next token. The error then pointed at the token after the
offending one, or at the start of the pattern when the pattern had ended.
---
 pango-lexer/src/regex/parser.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/pango-lexer/src/regex/parser.rs b/pango-lexer/src/regex/parser.rs
index 05eb250..5491faf 100644
--- a/pango-lexer/src/regex/parser.rs
+++ b/pango-lexer/src/regex/parser.rs
@@ -192,13 +192,10 @@ impl<'a> Parser<'a> {
         let expr = self.expression()?;
 
         // RIGHT_PAREN
-        if !matches!(
-            self.tokens.next(),
-            Some(Token {
-                pos: _,
-                kind: TokenKind::Operator(OperatorKind::RightParen)
-            })
-        ) {
+        let right_paren = self
+            .tokens
+            .next_if(|token| matches!(token.kind, TokenKind::Operator(OperatorKind::RightParen)));
+        if right_paren.is_none() {
             return Err(W(vec![ParseError {
                 kind: ParseErrorKind::RightParan,
                 pos: self.get_current_token_position(),
@@ -322,17 +319,14 @@ impl<'a> Parser<'a> {
             };
         }
 
-        match self.tokens.next() {
-            Some(Token {
-                pos: _,
-                kind: TokenKind::Operator(OperatorKind::RightBracket),
-            }) => (),
-            _ => {
-                return Err(W(vec![ParseError {
-                    kind: ParseErrorKind::RightBracket,
-                    pos: self.get_current_token_position(),
-                }]))
-            }
+        let right_bracket = self
+            .tokens
+            .next_if(|token| matches!(token.kind, TokenKind::Operator(OperatorKind::RightBracket)));
+        if right_bracket.is_none() {
+            return Err(W(vec![ParseError {
+                kind: ParseErrorKind::RightBracket,
+                pos: self.get_current_token_position(),
+            }]));
         }
 
         Ok(ast::LiteralKind::Group {
@@ -359,7 +353,7 @@ impl<'a> Parser<'a> {
                     {
                         self.tokens.next();
 
-                        match self.tokens.next() {
+                        match self.tokens.next_if(|token| matches!(token.kind, Match(_))) {
                             Some(Token {
                                 pos: _,
                                 kind: Match(end),
-- 
2.43.0


From 051bb77e0af32c3f0011e84729bf92737d623e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:44 +0000
Subject: [PATCH 05/22] fix: refuse empty groups and alternatives instead of
 panicking

The pattern grammar wants at least one item per sub expression. Patterns such
as `()`, `(|a)`, `|a` and `)` were parsed to an empty concatenation, which
the NFA compiler cannot handle, and panicked.
---
 pango-lexer/src/regex/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pango-lexer/src/regex/parser.rs b/pango-lexer/src/regex/parser.rs
index 5491faf..f9b92bb 100644
--- a/pango-lexer/src/regex/parser.rs
+++ b/pango-lexer/src/regex/parser.rs
@@ -154,6 +154,13 @@ impl<'a> Parser<'a> {
             literals.push(self.sub_expression_item()?);
         }
 
+        if literals.is_empty() {
+            return Err(W(vec![ParseError {
+                kind: ParseErrorKind::SubExpression,
+                pos: self.get_current_token_position(),
+            }]));
+        }
+
         Ok(literals)
     }
 
-- 
2.43.0


From d4c6eab07758398e618a709fa45091f796a39c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:47 +0000
Subject: [PATCH 06/22] fix: refuse patterns with an unbalanced closing
 parenthesis

Parsing stopped at a closing parenthesis without a group and ignored the rest
of the pattern, so `a)b` was taken for `a`.
---
 pango-lexer/src/regex/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pango-lexer/src/regex/parser.rs b/pango-lexer/src/regex/parser.rs
index f9b92bb..7253f25 100644
--- a/pango-lexer/src/regex/parser.rs
+++ b/pango-lexer/src/regex/parser.rs
@@ -32,6 +32,7 @@ pub enum ParseErrorKind {
     RightParan,
     LeftBracket,
     RightBracket,
+    EndOfPattern,
     SubExpression,
     TokenForSubExpression,
     Match,
@@ -55,6 +56,7 @@ impl std::fmt::Display for ParseErrorKind {
                 MatchCharacterClassLeftBracket => "expected MATCH, CHARACTER_CLASS or LEFT_BRACKET",
                 LeftBracket => "expected LEFT_BRACKET",
                 RightBracket => "expected RIGHT_BRACKET",
+                EndOfPattern => "expected the end of the pattern",
                 CharacterGroupItem => "expected at least one character group item",
                 Match => "expected MATCH",
                 CharacterClassCharacter => "expected CHARACTER_CLASS or CHARACTER",
@@ -101,6 +103,10 @@ impl<'a> Parser<'a> {
         }
 
         match self.expression() {
+            Ok(_) if self.tokens.peek().is_some() => Err(W(vec![ParseError {
+                kind: ParseErrorKind::EndOfPattern,
+                pos: self.get_current_token_position(),
+            }])),
             Ok(expr) => Ok(Ast(expr)),
             Err(mut errs) => {
                 self.errors.append(&mut errs.0);
-- 
2.43.0


From 409a9b0f7bb9a20eabf688d16737829f726bd64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:04 +0000
Subject: [PATCH 07/22] fix: emit the last token when the input ends inside a
 longer candidate

With the tokens `a` and `abc` the input `ab` yielded nothing: a token already
found was dropped if the input ended while a longer one was being tried.
---
 pango-lexer/src/lexer/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index 110072f..b72ed61 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -110,13 +110,10 @@ where
             }
         }
 
-        if sim.is_accepting() {
-            token_kind.map(|token_kind| {
-                Token::from_input_iter_token(self.iter.consume_token(), token_kind)
-            })
-        } else {
-            None
-        }
+        // the input ended, the longest token found so far is the one we can 'munch'
+
+        token_kind
+            .map(|token_kind| Token::from_input_iter_token(self.iter.consume_token(), token_kind))
     }
 }
 
-- 
2.43.0


From 0b3e2d90d9137c2496de8c91d94d9a71e38c8cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:06 +0000
Subject: [PATCH 08/22] fix: keep given-back lookahead that the next token did
 not read

When a token ended before all characters given back by the previous token were
read again, the remaining ones were overwritten and lost from the input.
---
 pango-lexer/src/lexer/input.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 668df14..d19dd78 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -74,7 +74,7 @@ impl<'a> InputIter<'a> {
     /// Takes the currently built/accepted token from the iterator and moves the
     /// not accepted part of the input so it is used for the next token.
     pub(super) fn consume_token(&mut self) -> InputIterToken {
-        self.prev_characters_iter = std::mem::take(&mut self.token_suffix).into_iter();
+        self.reject_suffix();
         let new_token = InputIterToken {
             // OPTIMIZATION: Assume that the string length of the new token will at least be half
             // of the previous token.
@@ -86,6 +86,14 @@ impl<'a> InputIter<'a> {
         std::mem::replace(&mut self.current_token, new_token)
     }
 
+    /// Gives back the not accepted part of the input, so that it is read again
+    /// before the rest of the input.
+    pub(super) fn reject_suffix(&mut self) {
+        let mut rejected = std::mem::take(&mut self.token_suffix);
+        rejected.extend(self.prev_characters_iter.by_ref());
+        self.prev_characters_iter = rejected.into_iter();
+    }
+
     /// Returns a read-only reference to the [`InputIterToken`] being built.
     pub(super) fn get_token(&self) -> &InputIterToken {
         &self.current_token
-- 
2.43.0


From 54a5dbd3c4f594001f2d443c9109426459ac3293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:08 +0000
Subject: [PATCH 09/22] fix: stay at the end once no token matches

After reporting that no token matches, asking the lexer again continued behind
the unmatched characters and put them into the text of the next token.
---
 pango-lexer/src/lexer/mod.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index b72ed61..137a549 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -73,9 +73,7 @@ where
             if !sim.can_feed(ch) {
                 // the current token is the longest token we can 'munch'
 
-                return token_kind.map(|token_kind| {
-                    Token::from_input_iter_token(self.iter.consume_token(), token_kind)
-                });
+                break;
             }
 
             if sim.feed(ch) {
@@ -110,10 +108,18 @@ where
             }
         }
 
-        // the input ended, the longest token found so far is the one we can 'munch'
-
-        token_kind
-            .map(|token_kind| Token::from_input_iter_token(self.iter.consume_token(), token_kind))
+        match token_kind {
+            Some(token_kind) => Some(Token::from_input_iter_token(
+                self.iter.consume_token(),
+                token_kind,
+            )),
+            None => {
+                // Give the characters back, otherwise they would end up in a token when the
+                // lexer is asked again.
+                self.iter.reject_suffix();
+                None
+            }
+        }
     }
 }
 
-- 
2.43.0


From f133911a7ccc85dcc3a6179460d9900a6c78cba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:46 +0000
Subject: [PATCH 10/22] fix: keep every simulation run only once

Runs that reach the same configuration over different transitions were all
kept, so overlapping alternatives such as `(a|[a])*` doubled the number of runs
with every character.
---
 pango-lexer/src/fsm/nfa/sim.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index dd08984..422f5e6 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -134,7 +134,7 @@ impl Simulate for NfaSimulator<'_> {
     }
 
     fn feed(&mut self, input: char) -> bool {
-        let mut updated_runs = Vec::new();
+        let mut updated_runs = HashSet::new();
 
         for run @ Run { state_id, .. } in self.runs.iter() {
             let State { transitions, .. } = self.nfa.get_state(*state_id);
@@ -167,7 +167,7 @@ impl Simulate for NfaSimulator<'_> {
             updated_runs.extend(new_runs);
         }
 
-        self.runs = updated_runs;
+        self.runs = updated_runs.into_iter().collect();
 
         #[cfg(debug_assertions)]
         {
-- 
2.43.0


From 09349dae90b2f39386739669de6024fe2d7bb9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:49 +0000
Subject: [PATCH 11/22] fix: count repetitions correctly in nested quantifiers

The closure of the start state did not count repetitions it started, so the
first repetition of a group that begins with another repetition was missed:
`(a*b)+` refused `b` and `(a*b){2}` matched `bbb`. Repeating a group that can
be empty, as in `(a*)*`, never stopped counting and looped forever.

Use the closure over runs for the start state as well, count only quantified
states and only as far as the quantifier can tell the difference, give up runs
that repeat too often, and let an empty repetition stand for all repetitions
that are still required.
---
 pango-lexer/src/fsm/nfa/model.rs   |  54 +++-----------
 pango-lexer/src/fsm/nfa/sim.rs     | 113 +++++++++++++++++++++--------
 pango-lexer/src/regex/tokenizer.rs |  28 +++++++
 3 files changed, 118 insertions(+), 77 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/model.rs b/pango-lexer/src/fsm/nfa/model.rs
index f0bf32b..e28d9d1 100644
--- a/pango-lexer/src/fsm/nfa/model.rs
+++ b/pango-lexer/src/fsm/nfa/model.rs
@@ -1,6 +1,6 @@
 use super::StateId;
 use crate::regex::{ast, tokenizer::QuantifierKind};
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 // TODO: Clean up expects and panics to be `Option` and `Result` types.
 
@@ -76,50 +76,6 @@ impl Nfa {
     pub(super) fn get_final_states(&self) -> impl Iterator<Item = &State> + '_ {
         self.states.iter().filter(|s| s.fin)
     }
-
-    /// Returns an iterator over references to all states in the static epsilon
-    /// closure of the given state.
-    ///
-    /// This implementation of the NFA uses quantified transitions which can
-    /// only be taken when the state has been visited 'x' amount of times.
-    /// This is useful to prevent the exponential growth of the NFA when
-    /// compiling complex regex quantifiers. However, this means that state
-    /// counting has to be done at 'run-time' of the NFA. Information which is
-    /// not known to the [`NfaModel`](self::Nfa). Instaid a state is always
-    /// assumed to be visited 0 times, when trying quantified transitions.
-    pub(super) fn eps_closure(&self, state_id: StateId) -> impl Iterator<Item = StateId> {
-        let mut not_visited = VecDeque::from([state_id]);
-        let mut result = BTreeSet::from([state_id]);
-
-        while let Some(state_id) = not_visited.pop_front() {
-            let State { transitions, .. } = self.get_state(state_id);
-
-            let new_state_ids = transitions
-                .iter()
-                .filter_map(|(input, states)| -> Option<Box<dyn Iterator<Item = _>>> {
-                    match input {
-                        Input::Literal(_) => None,
-                        Input::Eps => Some(Box::new(states.iter())),
-                        Input::Quantified(quantifier) => {
-                            if quantifier.is_satisfied(0) {
-                                Some(Box::new(states.iter()))
-                            } else {
-                                None
-                            }
-                        }
-                    }
-                })
-                .flatten();
-
-            for state_id in new_state_ids {
-                if result.insert(*state_id) {
-                    not_visited.push_back(*state_id)
-                }
-            }
-        }
-
-        result.into_iter()
-    }
 }
 
 impl Input {
@@ -149,6 +105,14 @@ impl State {
     fn with_id(id: StateId, fin: bool) -> Self {
         Self::new(id, fin, Transitions::new())
     }
+
+    /// Returns the quantifier of the state if it is a quantified state.
+    pub(super) fn get_quantifier(&self) -> Option<QuantifierKind> {
+        self.transitions.keys().find_map(|input| match input {
+            Input::Quantified(quantifier) => Some(*quantifier),
+            Input::Literal(_) | Input::Eps => None,
+        })
+    }
 }
 
 /// Builder struct for the [`Nfa`].
diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index 422f5e6..5fb06a8 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -39,57 +39,88 @@ impl Run {
         }
     }
 
+    /// Returns how many times a quantified state has been repeated.
+    fn get_count(&self, state_id: StateId) -> usize {
+        *self.state_counters.get(&state_id).unwrap_or(&0)
+    }
+
+    /// Sets how many times a quantified state has been repeated.
+    fn set_count(&mut self, state_id: StateId, count: usize) {
+        // Not storing zeros makes equal runs compare equal.
+        if count == 0 {
+            self.state_counters.remove(&state_id);
+        } else {
+            self.state_counters.insert(state_id, count);
+        }
+    }
+
     /// Updates the [`Run`] to the new state and updates the needed state
-    /// counters.
-    fn take_transition(mut self, new_state_id: StateId, quantified: bool) -> Self {
-        let count = self.state_counters.entry(self.state_id).or_insert(0);
+    /// counters. Returns `None` if the state has already been repeated as often
+    /// as its quantifier allows.
+    fn take_transition(
+        mut self,
+        state: &State,
+        new_state_id: StateId,
+        quantified: bool,
+    ) -> Option<Self> {
         if quantified {
             // Reset the state count if quantified transition is used
-            *count = 0;
-        } else {
-            *count += 1;
+            self.set_count(state.id, 0);
+        } else if let Some(quantifier) = state.get_quantifier() {
+            let count = self.get_count(state.id);
+            let new_count = match quantifier.max_count() {
+                Some(max_count) if count >= max_count => return None,
+                Some(_) => count + 1,
+                // counting further does not change whether the quantifier is satisfied
+                None => (count + 1).min(quantifier.min_count()),
+            };
+            self.set_count(state.id, new_count);
         }
         self.state_id = new_state_id;
 
-        self
+        Some(self)
     }
 }
 
 impl<'a> NfaSimulator<'a> {
     /// Creates a new [`NfaSimulator`].
     fn new(nfa: Cow<'a, Nfa>) -> Self {
-        let runs = nfa
-            .eps_closure(nfa.start_state)
-            .map(Run::new)
-            .collect::<Vec<_>>();
-
-        Self { nfa, runs }
+        let mut simulator = Self {
+            nfa,
+            runs: Vec::new(),
+        };
+        simulator.runs = simulator
+            .eps_closure(Run::new(simulator.nfa.start_state))
+            .collect();
+
+        simulator
     }
 
     /// Returns an iterator over the runtime epsilon closure. This is an epsilon
     /// closure of [`Run`]s, NOT of [`State`]s. Because runs contain state
     /// counters, this will also take quantified transitions.
+    ///
+    /// When a quantified state is left and reached again within the closure,
+    /// nothing was read in between. What is repeated can be empty, so all
+    /// repetitions that are still required can be empty as well.
     fn eps_closure(&self, run: Run) -> impl Iterator<Item = Run> {
-        let mut not_visited = VecDeque::from([run.clone()]);
+        // Runs to visit, along with the counts of the quantified states that have been
+        // left, but not yet completed, within the closure.
+        let mut not_visited = VecDeque::from([(run.clone(), StateCounters::new())]);
         let mut result = HashSet::from([run]);
 
-        while let Some(run) = not_visited.pop_front() {
-            let Run {
-                state_id,
-                state_counters,
-            } = &run;
+        while let Some((run, left_counters)) = not_visited.pop_front() {
+            let state = self.nfa.get_state(run.state_id);
 
-            let State { transitions, .. } = self.nfa.get_state(*state_id);
-
-            let transitions_taken = transitions
+            let transitions_taken = state
+                .transitions
                 .iter()
                 .filter_map(|(input, states)| -> Option<Box<dyn Iterator<Item = _>>> {
                     match input {
                         Input::Literal(_) => None,
                         Input::Eps => Some(Box::new(states.iter().map(|state| (state, false)))),
                         Input::Quantified(quantifier) => {
-                            if quantifier.is_satisfied(*state_counters.get(state_id).unwrap_or(&0))
-                            {
+                            if quantifier.is_satisfied(run.get_count(run.state_id)) {
                                 Some(Box::new(states.iter().map(|state| (state, true))))
                             } else {
                                 None
@@ -99,13 +130,30 @@ impl<'a> NfaSimulator<'a> {
                 })
                 .flatten();
 
-            let new_runs = transitions_taken
-                .into_iter()
-                .map(|(new_state, quantified)| run.clone().take_transition(*new_state, quantified));
+            for (new_state_id, quantified) in transitions_taken {
+                let Some(mut new_run) =
+                    run.clone()
+                        .take_transition(state, *new_state_id, quantified)
+                else {
+                    continue;
+                };
+                let mut left_counters = left_counters.clone();
+
+                if quantified {
+                    left_counters.remove(&state.id);
+                } else if state.get_quantifier().is_some() {
+                    left_counters.insert(state.id, run.get_count(state.id));
+                }
+
+                let new_state = self.nfa.get_state(*new_state_id);
+                if let (Some(count), Some(quantifier)) =
+                    (left_counters.get(new_state_id), new_state.get_quantifier())
+                {
+                    new_run.set_count(*new_state_id, (*count).max(quantifier.min_count()));
+                }
 
-            for new_run in new_runs {
                 if result.insert(new_run.clone()) {
-                    not_visited.push_back(new_run);
+                    not_visited.push_back((new_run, left_counters));
                 }
             }
         }
@@ -137,11 +185,12 @@ impl Simulate for NfaSimulator<'_> {
         let mut updated_runs = HashSet::new();
 
         for run @ Run { state_id, .. } in self.runs.iter() {
-            let State { transitions, .. } = self.nfa.get_state(*state_id);
+            let state = self.nfa.get_state(*state_id);
 
             // Check for every transition if the input can make that transition.
 
-            let new_state_ids = transitions
+            let new_state_ids = state
+                .transitions
                 .iter()
                 .filter_map(|(expected, states)| {
                     if expected.can_take(input) {
@@ -161,7 +210,7 @@ impl Simulate for NfaSimulator<'_> {
 
             let new_runs = new_state_ids
                 .into_iter()
-                .map(|new_state_id| run.clone().take_transition(*new_state_id, false))
+                .filter_map(|new_state_id| run.clone().take_transition(state, *new_state_id, false))
                 .flat_map(|new_run| self.eps_closure(new_run));
 
             updated_runs.extend(new_runs);
diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index a78505a..222e9ed 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -421,6 +421,34 @@ impl QuantifierKind {
     }
 }
 
+impl QuantifierKind {
+    /// Smallest count that can satisfy the quantifier.
+    pub(crate) fn min_count(&self) -> usize {
+        match self {
+            QuantifierKind::Asterisk | QuantifierKind::QuestionMark => 0,
+            QuantifierKind::Plus => 1,
+            QuantifierKind::Range(
+                QuantifierRangeKind::Max(min)
+                | QuantifierRangeKind::Min(min)
+                | QuantifierRangeKind::Range(min, _),
+            ) => *min as usize,
+        }
+    }
+
+    /// Largest count that can satisfy the quantifier, if there is one.
+    pub(crate) fn max_count(&self) -> Option<usize> {
+        match self {
+            QuantifierKind::Asterisk
+            | QuantifierKind::Plus
+            | QuantifierKind::Range(QuantifierRangeKind::Min(_)) => None,
+            QuantifierKind::QuestionMark => Some(1),
+            QuantifierKind::Range(
+                QuantifierRangeKind::Max(max) | QuantifierRangeKind::Range(_, max),
+            ) => Some(*max as usize),
+        }
+    }
+}
+
 impl ClassKind {
     /// Whether `c` is an element of the character class.
     pub(super) fn contains(&self, c: char) -> bool {
-- 
2.43.0


From 472f1a9a1d2f69a23e6cec45e3120e09b8d21b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:39 +0000
Subject: [PATCH 12/22] fix: accept grammars whose items agree on an action

Two rules that shift the same terminal, such as `S -> a b | a x`, were treated
as a conflict and the grammar was refused as not SLR.
---
 pango-parser/src/parser/table.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 0b14ae4..44491e8 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -135,6 +135,7 @@ where
 
 impl<V, T> ParseTable<V, T>
 where
+    V: Copy + Eq,
     T: TerminalEq + TerminalHash,
 {
     fn insert_action(
@@ -150,16 +151,13 @@ where
         let state = table
             .get_mut(state)
             .expect("state should exist as the table has just been resized");
-        let mut occupied = true;
-        let _entry = state.entry(terminal).or_insert_with(|| {
-            occupied = false;
-            action
-        });
+        // items agreeing on the action are not in conflict
+        let entry = state.entry(terminal).or_insert(action);
 
         // TODO: Return type of conflict
-        match occupied {
-            true => Err(()),
-            false => Ok(()),
+        match *entry == action {
+            true => Ok(()),
+            false => Err(()),
         }
     }
 }
-- 
2.43.0


From c1b13dab51e4b331d47809189561d6cd314ea09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:40 +0000
Subject: [PATCH 13/22] fix: do not take a node off the stack for epsilon

Reducing a rule counted its epsilon symbols, although nothing is pushed for
them. Every empty rule removed one node too many.
---
 pango-parser/src/parser/table.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 44491e8..ec6dd3b 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -80,6 +80,14 @@ where
                     }
                     None => {
                         // body of the form `S -> w •`
+
+                        // epsilon is never read, so there is no node for it on the stack
+                        let amount = body
+                            .get_body()
+                            .iter()
+                            .filter(|s| !matches!(s, Symbol::Epsilon))
+                            .count();
+
                         let Some(follow) = follow_set.get(&head) else {
                             continue;
                         };
@@ -99,7 +107,7 @@ where
                                 t,
                                 ActionKind::Reduce {
                                     variable: head,
-                                    amount: body.get_body().len(),
+                                    amount,
                                 },
                             )?;
                         }
@@ -113,7 +121,7 @@ where
                                 Terminal::Eof,
                                 ActionKind::Accept {
                                     variable: head,
-                                    amount: body.get_body().len(),
+                                    amount,
                                 },
                             )?;
                         }
-- 
2.43.0


From 10251d96e574389f5f5def606ee0e59b98af3e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:43 +0000
Subject: [PATCH 14/22] fix: reduce and accept correctly at the end of the
 input

Only the start variable could be reduced at the end of the input, and doing so
accepted whatever else was on the stack. `S -> a S | b` refused `ab`,
`S -> a S b | x` accepted `ax`, and rules of variables that are not followed by
a terminal were never reduced.

Reduce every variable that can end the input when the end is reached and accept
only once the start variable is all that was read.
---
 pango-parser/src/grammar.rs      | 37 ++++++++++++++++++++++++++++++++
 pango-parser/src/parser/slr.rs   | 22 +++++++------------
 pango-parser/src/parser/table.rs | 25 ++++++++++++---------
 3 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/pango-parser/src/grammar.rs b/pango-parser/src/grammar.rs
index 5f877a2..a34fdd0 100644
--- a/pango-parser/src/grammar.rs
+++ b/pango-parser/src/grammar.rs
@@ -375,6 +375,43 @@ where
     }
 }
 
+impl<V, T> Grammar<V, T>
+where
+    V: Copy + Eq + Hash,
+    T: Eq + Hash,
+{
+    /// Returns the variables that can be at the end of the input, i.e., the
+    /// variables that have the end of the input in their follow set.
+    pub(super) fn follow_eof_set(&self) -> HashSet<V> {
+        let mut result = HashSet::from([self.start_variable]);
+        let mut pending_variables = VecDeque::from([self.start_variable]);
+
+        while let Some(head) = pending_variables.pop_front() {
+            let bodies = self.get_rule_bodies(head).expect("variable does not exist");
+
+            for body in bodies {
+                for symbol in body.iter().rev() {
+                    match symbol {
+                        Symbol::Terminal(_) => break,
+                        Symbol::Variable(v) => {
+                            if result.insert(*v) {
+                                pending_variables.push_back(*v);
+                            }
+
+                            if !self.first(*v).contains(&Symbol::Epsilon) {
+                                break;
+                            }
+                        }
+                        Symbol::Epsilon => (),
+                    }
+                }
+            }
+        }
+
+        result
+    }
+}
+
 impl<V, T> Grammar<V, T>
 where
     V: Copy + Eq + Hash,
diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index c828220..f5b3547 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -148,22 +148,16 @@ where
                     state: *new_state,
                 }
             }
-            ActionKind::Accept { variable, amount } => {
-                let children = stack
-                    .drain((stack.len() - amount)..)
-                    .map(|parse_node| parse_node.node)
-                    .rev()
-                    .collect();
+            ActionKind::Accept => {
+                let parse_node = stack.pop().expect("expected the start variable to accept");
 
-                accept = true;
-                ParseNode {
-                    node: Node {
-                        symbol: Symbol::Variable(*variable),
-                        children,
-                    },
-                    // State does not matter here as the action is to accept
-                    state: StateId::default(),
+                if stack.len() != 1 {
+                    // the start variable is not all that has been read
+                    return Err(());
                 }
+
+                accept = true;
+                parse_node
             }
         };
 
diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index ec6dd3b..fce774e 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -20,7 +20,7 @@ type GotoTable<V> = Vec<HashMap<V, StateId>>;
 pub enum ActionKind<V> {
     Shift { dest_state: StateId },
     Reduce { variable: V, amount: usize },
-    Accept { variable: V, amount: usize },
+    Accept,
 }
 
 pub(super) enum Terminal<T> {
@@ -48,6 +48,7 @@ where
         let grammar = cfsm.get_grammar();
 
         let follow_set = grammar.follow_set();
+        let follow_eof_set = grammar.follow_eof_set();
 
         let (mut action, mut goto) = (ActionTable::new(), GotoTable::new());
 
@@ -88,11 +89,7 @@ where
                             .filter(|s| !matches!(s, Symbol::Epsilon))
                             .count();
 
-                        let Some(follow) = follow_set.get(&head) else {
-                            continue;
-                        };
-
-                        for s in follow.iter() {
+                        for s in follow_set.get(&head).into_iter().flatten() {
                             let t = match s {
                                 Symbol::Terminal(t) => Terminal::T(t.into()),
                                 Symbol::Variable(_) => {
@@ -112,14 +109,12 @@ where
                             )?;
                         }
 
-                        if head == grammar.get_start_variable() {
-                            // reduce once to the start variable on a lookahead of eof, then
-                            // accept
+                        if follow_eof_set.contains(&head) {
                             Self::insert_action(
                                 &mut action,
                                 *state_id,
                                 Terminal::Eof,
-                                ActionKind::Accept {
+                                ActionKind::Reduce {
                                     variable: head,
                                     amount,
                                 },
@@ -133,6 +128,16 @@ where
             }
         }
 
+        // accept when eof is read in the state reached by reducing to the start
+        // variable at the bottom of the stack
+        let start_variable = grammar.get_start_variable();
+        let accept_state = goto
+            .first()
+            .and_then(|goto| goto.get(&start_variable).copied())
+            .unwrap_or_else(|| cfsm.iter().count());
+        Self::insert_goto(&mut goto, StateId::default(), start_variable, accept_state);
+        Self::insert_action(&mut action, accept_state, Terminal::Eof, ActionKind::Accept)?;
+
         Ok(Self {
             action,
             goto,
-- 
2.43.0


From 506987a3423c8614cb6635710970715e2088f14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:43 +0000
Subject: [PATCH 15/22] fix: give every state a row in the parse tables

The tables ended at the last state with an action or goto, and parsing panicked
when it reached a state behind that.
---
 pango-parser/src/parser/table.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index fce774e..275be17 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -50,7 +50,10 @@ where
         let follow_set = grammar.follow_set();
         let follow_eof_set = grammar.follow_eof_set();
 
+        // every state needs a row, also when it has no action or goto
         let (mut action, mut goto) = (ActionTable::new(), GotoTable::new());
+        action.resize_with(cfsm.iter().count(), Default::default);
+        goto.resize_with(cfsm.iter().count(), Default::default);
 
         for cfsm::State {
             id: state_id,
-- 
2.43.0


From 7c02bef262d058a837ed45c50f165524222e3159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:45 +0000
Subject: [PATCH 16/22] fix: create one state for every item set

Item sets of states that were still waiting to be processed were not looked up,
so the machine contained copies of the same state. The number of copies grew
exponentially with the depth of the grammar.
---
 pango-parser/src/cfsm/mod.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/pango-parser/src/cfsm/mod.rs b/pango-parser/src/cfsm/mod.rs
index 66bd8da..ca7a628 100644
--- a/pango-parser/src/cfsm/mod.rs
+++ b/pango-parser/src/cfsm/mod.rs
@@ -76,12 +76,12 @@ where
             // try all symbols with a bullet reading them
 
             let State {
-                ref item_set,
+                id: current_state_id,
+                item_set: ref current_item_set,
                 ref mut transitions,
-                ..
             } = state;
 
-            for (symbol, item_set) in item_set.iter_by_cursor_symbol() {
+            for (symbol, item_set) in current_item_set.iter_by_cursor_symbol() {
                 // advance the items which read the same symbol
 
                 let new_item_set = item_set
@@ -99,12 +99,20 @@ where
                 let item_set = ItemSet::from((new_item_set, builder.get_grammar()));
 
                 let new_state_id = {
-                    match builder
-                        .get_states_mut()
-                        .iter()
-                        .find(|s| s.has_item_set(&item_set))
-                    {
-                        Some(State { id, .. }) => *id,
+                    // the current and pending states have not been added to the builder yet
+                    let existing_state_id = if current_item_set == &item_set {
+                        Some(current_state_id)
+                    } else {
+                        builder
+                            .get_states_mut()
+                            .iter()
+                            .chain(pending_states.iter())
+                            .find(|s| s.has_item_set(&item_set))
+                            .map(|s| s.id)
+                    };
+
+                    match existing_state_id {
+                        Some(state_id) => state_id,
                         None => {
                             let state = State::new(state_id_generator.next(), item_set);
                             let state_id = state.id;
-- 
2.43.0


From 8dec82fe2a2e19d3e4f800606a4205de504aab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:46 +0000
Subject: [PATCH 17/22] fix: refuse text that cannot be tokenized completely

The parser treated the first text that matches no token as the end of the
input, so `1+2 %` was accepted whenever `1+2` was.
---
 pango-parser/src/parser/slr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index f5b3547..83bb82a 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -45,6 +45,8 @@ where
         // TODO: Store position information about the token.
 
         let mut next_token = None;
+        // end of the text that has been tokenized
+        let mut tokens_end = 0;
 
         let mut current_state = StateId::default();
         let mut stack = Vec::from([ParseNode {
@@ -56,6 +58,7 @@ where
         }]);
 
         while let Some(token) = next_token.or_else(|| input.next()) {
+            tokens_end = token.pos.1;
             next_token = Some(token);
             let (parse_node, accept) =
                 self.handle_token(&mut next_token, &mut stack, current_state)?;
@@ -70,6 +73,11 @@ where
             stack.push(parse_node);
         }
 
+        if tokens_end != input.input.chars().count() {
+            // no token matches the remaining text
+            return Err(());
+        }
+
         // eof
         next_token = None;
         while let Ok((parse_node, accept)) =
-- 
2.43.0


From b1aab11e9e847de0a7a99ae5b0f36b77a578ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:47 +0000
Subject: [PATCH 18/22] fix: escape labels in the dot output

Symbols whose debug text contains quotes or backslashes, such as string
literals, produced dot files that graphviz cannot read.
---
 pango-parser/src/cfsm/dot.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pango-parser/src/cfsm/dot.rs b/pango-parser/src/cfsm/dot.rs
index daaf3f6..16e350e 100644
--- a/pango-parser/src/cfsm/dot.rs
+++ b/pango-parser/src/cfsm/dot.rs
@@ -35,6 +35,7 @@ where
             let label = item_set
                 .iter()
                 .map(|(head, item_body)| format!("{:?} ➞ {}", head, item_body))
+                .map(|label| escape(&label))
                 .collect::<Vec<_>>()
                 .join(r"\n");
 
@@ -54,11 +55,11 @@ where
                         "{} -> {} [label = \"{}\"]",
                         *id,
                         state,
-                        match symbol {
+                        escape(&match symbol {
                             Symbol::Terminal(t) => format!("{:?}", t),
                             Symbol::Variable(v) => format!("{:?}", v),
                             eps @ Symbol::Epsilon => format!("{:?}", eps),
-                        }
+                        })
                     )
                 })
             },
@@ -66,6 +67,11 @@ where
     }
 }
 
+/// Escapes text for use inside of a quoted dot string.
+fn escape(text: &str) -> String {
+    text.replace('\\', r"\\").replace('"', "\\\"")
+}
+
 impl<V, T> Display for ItemBody<V, T>
 where
     V: Debug,
-- 
2.43.0


From f4157db2a5241de765ad0e76dd2e5d3dd7c39295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:02 +0000
Subject: [PATCH 19/22] Expose the iterator adaptors under cfg(pango_verif)

External checks can build with --cfg pango_verif to reach the otherwise private
iter module. Nothing changes without the flag.
---
 pango-lexer/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pango-lexer/src/lib.rs b/pango-lexer/src/lib.rs
index 7162321..efb86cd 100644
--- a/pango-lexer/src/lib.rs
+++ b/pango-lexer/src/lib.rs
@@ -1,7 +1,12 @@
+#![allow(unexpected_cfgs)]
+
 pub use lexer::{Lexer, Token};
 
 mod fsm;
+#[cfg(not(pango_verif))]
 mod iter;
+#[cfg(pango_verif)]
+pub mod iter;
 mod lexer;
 mod prelude;
 mod regex;
-- 
2.43.0


From 119ca630a7bfc2cce2dc05bf9c0012738a101242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:18 +0000
Subject: [PATCH 20/22] fix: refuse input instead of reducing empty nodes
 forever

With a start variable that derives no text, such as S -> A S A with an
empty A, the parser kept pushing empty nodes until memory ran out.
Stop once the stack grew by more than one node per state without
reading a token.
---
 pango-parser/src/parser/slr.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index 83bb82a..17746dc 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -57,6 +57,11 @@ where
             state: current_state,
         }]);
 
+        // Between two shifts, only empty nodes make the stack grow. Once there are more
+        // of them than states, a state repeats and the reductions would never end.
+        let states = self.table.action.len();
+        let mut max_stack_len = stack.len() + states;
+
         while let Some(token) = next_token.or_else(|| input.next()) {
             tokens_end = token.pos.1;
             next_token = Some(token);
@@ -71,6 +76,13 @@ where
 
             current_state = parse_node.state;
             stack.push(parse_node);
+
+            if next_token.is_none() {
+                // the token has been shifted
+                max_stack_len = stack.len() + states;
+            } else if stack.len() > max_stack_len {
+                return Err(());
+            }
         }
 
         if tokens_end != input.input.chars().count() {
@@ -91,6 +103,10 @@ where
 
             current_state = parse_node.state;
             stack.push(parse_node);
+
+            if stack.len() > max_stack_len {
+                return Err(());
+            }
         }
 
         // never reached the accept call
-- 
2.43.0


From 7962dce3f14f8dde433ad18709215c20b2e68d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:10:42 +0000
Subject: [PATCH 21/22] fix: escape labels in the dot output of the lexer's
 automaton

Debug texts of characters contain quotes and backslashes. Put between quotes
as they were, they ended the label too early or lost their backslash.
---
 pango-lexer/src/fsm/nfa/dot.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/fsm/nfa/dot.rs b/pango-lexer/src/fsm/nfa/dot.rs
index 8320b27..169bf89 100644
--- a/pango-lexer/src/fsm/nfa/dot.rs
+++ b/pango-lexer/src/fsm/nfa/dot.rs
@@ -59,7 +59,12 @@ impl State {
             .flat_map(move |(input, dest_states)| {
                 dest_states
                     .iter()
-                    .map(move |dest| (self.id, *dest, format!("{:?}", input)))
+                    .map(move |dest| (self.id, *dest, escape(&format!("{:?}", input))))
             })
     }
 }
+
+/// Escapes a label for a quoted dot string, so that it is displayed as is.
+fn escape(label: &str) -> String {
+    label.replace('\\', "\\\\").replace('"', "\\\"")
+}
-- 
2.43.0


From 71de9857a4d2e04b619e82ceaf4216e561b0ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:10:42 +0000
Subject: [PATCH 22/22] Expose the lexer automaton's dot text under
 cfg(pango_verif_nfa)

---
 pango-lexer/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pango-lexer/src/lib.rs b/pango-lexer/src/lib.rs
index efb86cd..71ef6f8 100644
--- a/pango-lexer/src/lib.rs
+++ b/pango-lexer/src/lib.rs
@@ -10,3 +10,14 @@ pub mod iter;
 mod lexer;
 mod prelude;
 mod regex;
+
+/// DOT text of the automaton that accepts what any of the patterns matches.
+/// `None` if one of the patterns is not valid.
+#[cfg(pango_verif_nfa)]
+pub fn nfa_dot(patterns: &[&str]) -> Option<String> {
+    let asts = patterns
+        .iter()
+        .map(|pattern| regex::Parser::new(pattern).parse().ok())
+        .collect::<Option<Vec<_>>>()?;
+    Some(fsm::Nfa::from(asts).to_string())
+}
-- 
2.43.0

