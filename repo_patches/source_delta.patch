From 87ba0223cd6f9d5a1b177aa3d4cb4839d34f6f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:44 +0000
Subject: [PATCH 01/25] fix: count every newline when \n and \r\n line ends are
 mixed

The line counter looked for the next "\r\n" first and jumped over any plain
"\n" before it, so locations after a stretch with mixed line ends were wrong.
---
 lexan/src/analyzer.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lexan/src/analyzer.rs b/lexan/src/analyzer.rs
index 3952d04..7e80ac0 100644
--- a/lexan/src/analyzer.rs
+++ b/lexan/src/analyzer.rs
@@ -178,11 +178,7 @@ where
         let slice = &self.text[self.index..next_index];
         let mut i = 0;
         while i < length {
-            if let Some(eol_i) = slice[i..].find("\r\n") {
-                self.location.line_number += 1;
-                self.location.offset = 1;
-                i += eol_i + 2;
-            } else if let Some(eol_i) = slice[i..].find('\n') {
+            if let Some(eol_i) = slice[i..].find('\n') {
                 self.location.line_number += 1;
                 self.location.offset = 1;
                 i += eol_i + 1;
-- 
2.43.0


From e7f2090d5dabce550cfc846e40bf9a789e46f41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:44 +0000
Subject: [PATCH 02/25] fix: resynchronise on character boundaries after
 unexpected text

Scanning byte by byte sliced the text inside multi-byte characters and panicked.
---
 lexan/src/lexicon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexan/src/lexicon.rs b/lexan/src/lexicon.rs
index e57e0ae..f61cbcc 100644
--- a/lexan/src/lexicon.rs
+++ b/lexan/src/lexicon.rs
@@ -75,7 +75,7 @@ where
 
     /// Returns the distance in bytes to the next valid content in `text`
     pub fn distance_to_next_valid_byte(&self, text: &str) -> usize {
-        for index in 0..text.len() {
+        for (index, _) in text.char_indices() {
             if self.literal_matcher.matches(&text[index..]) {
                 return index;
             }
-- 
2.43.0


From ed7999973c32b63f64ad4508108aab1ea68ff139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:23 +0000
Subject: [PATCH 03/25] fix: anchor patterns as a whole

Only the first alternative of a pattern such as (a)|(b) was anchored to the
current position, so the lexer could find a match further on and deliver a token
whose text also included everything before it. A pattern starting with a
repetition operator was accepted because the operator applied to the anchor.
---
 lexan/src/matcher.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index f4a4262..7032270 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -121,6 +121,15 @@ impl<T: Eq + Debug + Copy + Ord + Display> LiteralMatcher<T> {
     }
 }
 
+/// Compile `pattern` so that all of it (including any top level alternatives) can only match
+/// at the start of a text. The pattern must be a valid regular expression in its own right.
+fn anchored_regex(pattern: &str) -> Result<Regex, regex::Error> {
+    Regex::new(pattern)?;
+    // A valid pattern can only swallow the closing parenthesis with a trailing (?x) comment.
+    Regex::new(&format!("\\A(?:{pattern})"))
+        .or_else(|_| Regex::new(&format!("\\A(?:{pattern}\n)")))
+}
+
 #[derive(Debug, Default)]
 pub(crate) struct RegexMatcher<T: Copy + Debug> {
     lexemes: Vec<(T, Regex)>,
@@ -133,9 +142,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
             if pattern.is_empty() {
                 return Err(LexanError::EmptyPattern(Some(*tag)));
             };
-            let mut anchored_pattern = "\\A".to_string();
-            anchored_pattern.push_str(pattern);
-            lexemes.push((*tag, Regex::new(&anchored_pattern)?));
+            lexemes.push((*tag, anchored_regex(pattern)?));
         }
         Ok(Self { lexemes })
     }
@@ -182,9 +189,7 @@ impl SkipMatcher {
             if regex_str.is_empty() {
                 return Err(LexanError::EmptyPattern(None));
             };
-            let mut anchored_pattern = "\\A".to_string();
-            anchored_pattern.push_str(regex_str);
-            regexes.push(Regex::new(&anchored_pattern)?);
+            regexes.push(anchored_regex(regex_str)?);
         }
         Ok(Self { regexes })
     }
-- 
2.43.0


From 180e0f7e595b4811a51b451acb4d36e07f085bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 04/25] fix: ignore matches of the empty string

A pattern or skip rule that can match nothing made the lexer deliver empty
tokens, or skip nothing, for ever.
---
 lexan/src/matcher.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index 7032270..7b98b78 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -130,6 +130,12 @@ fn anchored_regex(pattern: &str) -> Result<Regex, regex::Error> {
         .or_else(|_| Regex::new(&format!("\\A(?:{pattern}\n)")))
 }
 
+/// The length of the match of (an anchored) `regex` at the start of `text`. Matching nothing is
+/// not a match as it would prevent the lexical analysis from advancing.
+fn match_length(regex: &Regex, text: &str) -> Option<usize> {
+    regex.find(text).map(|m| m.end()).filter(|end| *end > 0)
+}
+
 #[derive(Debug, Default)]
 pub(crate) struct RegexMatcher<T: Copy + Debug> {
     lexemes: Vec<(T, Regex)>,
@@ -152,11 +158,11 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
         let mut matches = vec![];
         let mut largest_end = 0;
         for (tag, regex) in self.lexemes.iter() {
-            if let Some(m) = regex.find(text) {
-                match m.end().cmp(&largest_end) {
+            if let Some(end) = match_length(regex, text) {
+                match end.cmp(&largest_end) {
                     Ordering::Equal => matches.push(*tag),
                     Ordering::Greater => {
-                        largest_end = m.end();
+                        largest_end = end;
                         matches = vec![*tag];
                     }
                     Ordering::Less => (),
@@ -169,7 +175,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
     /// Returns `true` if we match the start of the text
     pub fn matches(&self, text: &str) -> bool {
         for (_, regex) in self.lexemes.iter() {
-            if regex.find(text).is_some() {
+            if match_length(regex, text).is_some() {
                 return true;
             }
         }
@@ -199,8 +205,8 @@ impl SkipMatcher {
         let mut index = 0;
         'outer: while index < text.len() {
             for regex in self.regexes.iter() {
-                if let Some(m) = regex.find(&text[index..]) {
-                    index += m.end();
+                if let Some(end) = match_length(regex, &text[index..]) {
+                    index += end;
                     continue 'outer;
                 }
             }
@@ -211,7 +217,7 @@ impl SkipMatcher {
 
     pub fn matches(&self, text: &str) -> bool {
         for regex in self.regexes.iter() {
-            if regex.find(text).is_some() {
+            if match_length(regex, text).is_some() {
                 return true;
             }
         }
-- 
2.43.0


From cb66aa0a5b595ee0971fc0373ab78733fbde0746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 05/25] fix: parse blank texts instead of reporting a lexical
 error

A text without any tokens has no front token, only an 'advanced when empty'
error (at location 0:0), which parsers reported even if their grammar derives the
empty sequence. They now see the end marker, located at the end of the text.
---
 alalr1/src/lib.rs     |  2 +-
 lalr1/src/lib.rs      |  2 +-
 lexan/src/analyzer.rs | 21 +++++++++++++++++++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 135a747..f4c1c28 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -195,7 +195,7 @@ where
         let mut result: Result<(), Error<T>> = Ok(());
 
         loop {
-            match tokens.front() {
+            match tokens.front_or_end() {
                 Err(err) => {
                     let expected_tokens = Self::look_ahead_set(parse_stack.current_state());
                     let error = Error::LexicalError(err, expected_tokens);
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 0b5ea6f..0db6b5e 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -248,7 +248,7 @@ where
         let mut result: Result<(), Error<T>> = Ok(());
 
         loop {
-            match tokens.front() {
+            match tokens.front_or_end() {
                 Err(err) => {
                     let expected_tokens = Self::look_ahead_set(parse_stack.current_state());
                     let error = Error::LexicalError(err, expected_tokens);
diff --git a/lexan/src/analyzer.rs b/lexan/src/analyzer.rs
index 7e80ac0..406370c 100644
--- a/lexan/src/analyzer.rs
+++ b/lexan/src/analyzer.rs
@@ -265,12 +265,16 @@ where
     T: Debug + Display + Copy + Eq + Ord,
 {
     pub fn new(lexicon: &Arc<Lexicon<T>>, text: &str, label: &str) -> Self {
+        let token_stream = BasicTokenStream::new(lexicon, text, label);
         let mut stream = Self {
             lexicon: Arc::clone(lexicon),
             token_stream_stack: vec![],
-            front: Err(Error::AdvancedWhenEmpty(Location::default())),
+            front: Err(Error::AdvancedWhenEmpty(token_stream.location())),
         };
-        stream.inject(text, label);
+        if let Some(front) = token_stream.front() {
+            stream.front = front;
+            stream.token_stream_stack.push(token_stream);
+        }
         stream
     }
 
@@ -282,6 +286,19 @@ where
         self.front.clone()
     }
 
+    /// The current token (or error), or the end marker if there is nothing to read. Unlike
+    /// `front()` this also delivers an end marker when there was never anything to read.
+    pub fn front_or_end(&self) -> Result<Token<T>, Error<T>> {
+        match &self.front {
+            Err(Error::AdvancedWhenEmpty(location)) => Ok(Token {
+                tag: self.lexicon.end_marker(),
+                lexeme: String::new(),
+                location: location.clone(),
+            }),
+            front => front.clone(),
+        }
+    }
+
     pub fn inject(&mut self, text: &str, label: &str) {
         let token_stream = BasicTokenStream::new(&self.lexicon, text, label);
         if !token_stream.is_empty() {
-- 
2.43.0


From d41ca642b07c19d47445d20f3c1cc88fa5a8f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 06/25] fix: error recovery can be repeated at the same place
 but never forever

The state last recovered at was never forgotten, so a second independent error
inside the same construct was not recovered there. On the other hand two states
could recover from an error at the same token alternately without consuming
anything, for ever. Now, until a token has been consumed, only states below the
last recovery on the stack are considered; after that all are again.
---
 alalr1/src/lib.rs | 29 ++++++++++++++---------------
 lalr1/src/lib.rs  | 29 ++++++++++++++---------------
 2 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index f4c1c28..538b661 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -48,7 +48,9 @@ where
 {
     states: Vec<(Symbol<T, N>, u32)>,
     attributes: Vec<A>,
-    last_error_state: Option<u32>,
+    // Index (into states) of the state the last error was recovered at if no token has been
+    // consumed since then.
+    last_recovery_index: Option<usize>,
 }
 
 impl<T, N, A> ParseStack<T, N, A>
@@ -60,7 +62,7 @@ where
         Self {
             states: vec![(Symbol::Start, 0)],
             attributes: vec![],
-            last_error_state: None,
+            last_recovery_index: None,
         }
     }
 
@@ -89,6 +91,7 @@ where
         self.states
             .push((Symbol::Terminal(*token.tag()), new_state));
         self.attributes.push(A::from(token));
+        self.last_recovery_index = None;
     }
 
     fn push_non_terminal(&mut self, non_terminal: N, attribute: A, new_state: u32) {
@@ -97,14 +100,6 @@ where
             .push((Symbol::NonTerminal(non_terminal), new_state));
     }
 
-    fn is_last_error_state(&self, state: u32) -> bool {
-        if let Some(last_error_state) = self.last_error_state {
-            state == last_error_state
-        } else {
-            false
-        }
-    }
-
     fn distance_to_viable_state<F: Fn(&T) -> OrderedSet<u32>>(
         &mut self,
         tokens: &mut TokenStream<T>,
@@ -113,15 +108,19 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
-                    let candidate = self.states[self.states.len() - sub].1;
-                    if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
-                        self.last_error_state = Some(candidate);
-                        return Some(sub - 1);
+                // An error before any token has been consumed means that the last recovery was a
+                // mistake so only consider states enclosing it (this guarantees progress).
+                let len = self.states.len();
+                let limit = self.last_recovery_index.unwrap_or(len).min(len);
+                for index in (1..limit).rev() {
+                    if viable_states.contains(&self.states[index].1) {
+                        self.last_recovery_index = Some(index);
+                        return Some(len - 1 - index);
                     }
                 }
             };
             tokens.advance();
+            self.last_recovery_index = None;
         }
         None
     }
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 0db6b5e..562dea0 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -106,7 +106,9 @@ where
 {
     states: Vec<(Symbol<T, N>, u32)>,
     attributes: Vec<A>,
-    last_error_state: Option<u32>,
+    // Index (into states) of the state the last error was recovered at if no token has been
+    // consumed since then.
+    last_recovery_index: Option<usize>,
 }
 
 impl<T, N, A> ParseStack<T, N, A>
@@ -118,7 +120,7 @@ where
         Self {
             states: vec![(Symbol::Start, 0)],
             attributes: vec![],
-            last_error_state: None,
+            last_recovery_index: None,
         }
     }
 
@@ -147,6 +149,7 @@ where
         self.states
             .push((Symbol::Terminal(*token.tag()), new_state));
         self.attributes.push(A::from(token));
+        self.last_recovery_index = None;
     }
 
     fn push_non_terminal(&mut self, non_terminal: N, attribute: A, new_state: u32) {
@@ -155,14 +158,6 @@ where
             .push((Symbol::NonTerminal(non_terminal), new_state));
     }
 
-    fn is_last_error_state(&self, state: u32) -> bool {
-        if let Some(last_error_state) = self.last_error_state {
-            state == last_error_state
-        } else {
-            false
-        }
-    }
-
     fn distance_to_viable_state<F: Fn(&T) -> OrderedSet<u32>>(
         &mut self,
         tokens: &mut TokenStream<T>,
@@ -171,15 +166,19 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
-                    let candidate = self.states[self.states.len() - sub].1;
-                    if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
-                        self.last_error_state = Some(candidate);
-                        return Some(sub - 1);
+                // An error before any token has been consumed means that the last recovery was a
+                // mistake so only consider states enclosing it (this guarantees progress).
+                let len = self.states.len();
+                let limit = self.last_recovery_index.unwrap_or(len).min(len);
+                for index in (1..limit).rev() {
+                    if viable_states.contains(&self.states[index].1) {
+                        self.last_recovery_index = Some(index);
+                        return Some(len - 1 - index);
                     }
                 }
             };
             tokens.advance();
+            self.last_recovery_index = None;
         }
         None
     }
-- 
2.43.0


From e62420eaa82bcea70e6475cf4781809e03795ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 07/25] fix: consider the start state during error recovery

The search stopped just above the bottom of the stack although tables list the
start state as a viable recovery state.
---
 alalr1/src/lib.rs | 2 +-
 lalr1/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 538b661..b22cb82 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -112,7 +112,7 @@ where
                 // mistake so only consider states enclosing it (this guarantees progress).
                 let len = self.states.len();
                 let limit = self.last_recovery_index.unwrap_or(len).min(len);
-                for index in (1..limit).rev() {
+                for index in (0..limit).rev() {
                     if viable_states.contains(&self.states[index].1) {
                         self.last_recovery_index = Some(index);
                         return Some(len - 1 - index);
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 562dea0..15288b5 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -170,7 +170,7 @@ where
                 // mistake so only consider states enclosing it (this guarantees progress).
                 let len = self.states.len();
                 let limit = self.last_recovery_index.unwrap_or(len).min(len);
-                for index in (1..limit).rev() {
+                for index in (0..limit).rev() {
                     if viable_states.contains(&self.states[index].1) {
                         self.last_recovery_index = Some(index);
                         return Some(len - 1 - index);
-- 
2.43.0


From 941780048f5e1f92809118d25fd5ddbcf871ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:02 +0000
Subject: [PATCH 08/25] fix: consider the end marker during error recovery

Recovery gave up on reaching the end of the text without checking whether the
error may be followed by the end marker, although tables have an entry for it.
---
 alalr1/src/lib.rs | 9 ++++++---
 lalr1/src/lib.rs  | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index b22cb82..76a9575 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -105,8 +105,8 @@ where
         tokens: &mut TokenStream<T>,
         viable_error_recovery_states: F,
     ) -> Option<usize> {
-        while !tokens.is_empty() {
-            if let Ok(token) = tokens.front() {
+        loop {
+            if let Ok(token) = tokens.front_or_end() {
                 let viable_states = viable_error_recovery_states(token.tag());
                 // An error before any token has been consumed means that the last recovery was a
                 // mistake so only consider states enclosing it (this guarantees progress).
@@ -119,10 +119,13 @@ where
                     }
                 }
             };
+            if tokens.is_empty() {
+                // the end marker can't be discarded
+                return None;
+            }
             tokens.advance();
             self.last_recovery_index = None;
         }
-        None
     }
 }
 
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 15288b5..c1fe984 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -163,8 +163,8 @@ where
         tokens: &mut TokenStream<T>,
         viable_error_recovery_states: F,
     ) -> Option<usize> {
-        while !tokens.is_empty() {
-            if let Ok(token) = tokens.front() {
+        loop {
+            if let Ok(token) = tokens.front_or_end() {
                 let viable_states = viable_error_recovery_states(token.tag());
                 // An error before any token has been consumed means that the last recovery was a
                 // mistake so only consider states enclosing it (this guarantees progress).
@@ -177,10 +177,13 @@ where
                     }
                 }
             };
+            if tokens.is_empty() {
+                // the end marker can't be discarded
+                return None;
+            }
             tokens.advance();
             self.last_recovery_index = None;
         }
-        None
     }
 }
 
-- 
2.43.0


From e916d2523c7083bdc3f0efc3d5ac034726e538f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:09 +0000
Subject: [PATCH 09/25] fix: compute FIRST sets as a fixpoint

Mutually (left) recursive non-terminals overflowed the stack, and tokens were
missing when a production became transparent after earlier ones of the same
non-terminal had been looked at (the need for another pass was forgotten).
---
 alalr1_lib/src/grammar.rs             | 22 +++----
 alalr1_lib/src/symbol/non_terminal.rs | 85 +++++++++++----------------
 lalr1_lib/src/grammar.rs              | 22 +++----
 lalr1_lib/src/symbol/non_terminal.rs  | 85 +++++++++++----------------
 4 files changed, 90 insertions(+), 124 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 0a3c1a5..ba273d4 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -56,16 +56,18 @@ impl Specification {
         if !spec.symbol_table.error_non_terminal().is_unused() {
             spec.productions.push(Production::new(symbol, tail));
         }
-        spec.symbol_table
-            .start_non_terminal()
-            .set_firsts_data(&spec.productions);
-        spec.symbol_table
-            .error_non_terminal()
-            .set_firsts_data(&spec.productions);
-        for non_terminal in spec.symbol_table.non_terminals() {
-            //if non_terminal.firsts_data_is_none() {
-            non_terminal.set_firsts_data(&spec.productions)
-            //}
+        let mut changed = true;
+        while changed {
+            changed = false;
+            for non_terminal in [
+                spec.symbol_table.start_non_terminal(),
+                spec.symbol_table.error_non_terminal(),
+            ]
+            .into_iter()
+            .chain(spec.symbol_table.non_terminals())
+            {
+                changed |= non_terminal.update_firsts_data(&spec.productions);
+            }
         }
         Ok(spec)
     }
diff --git a/alalr1_lib/src/symbol/non_terminal.rs b/alalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..d2bdde6 100644
--- a/alalr1_lib/src/symbol/non_terminal.rs
+++ b/alalr1_lib/src/symbol/non_terminal.rs
@@ -180,74 +180,55 @@ impl NonTerminal {
         }
     }
 
-    fn firsts_data_is_set(&self) -> bool {
+    /// Update our firsts data using what is known so far about the symbols in our productions.
+    /// Returns `true` if that added something i.e. the caller needs to repeat this for all non
+    /// terminals until nothing changes.
+    pub fn update_firsts_data(&self, productions: &[Production]) -> bool {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().is_some()
-            }
-        }
-    }
-
-    pub fn set_firsts_data(&self, productions: &[Production]) {
-        match self {
-            NonTerminal::UserDefined(non_terminal_data)
-            | NonTerminal::Error(non_terminal_data)
-            | NonTerminal::Start(non_terminal_data) => {
-                if non_terminal_data.firsts_data.borrow().is_some() {
-                    return;
-                }
-                let relevant_productions: Vec<Production> = productions
-                    .iter()
-                    .filter(|x| x.left_hand_side() == self)
-                    .cloned()
-                    .collect();
-                let mut transparent = relevant_productions.iter().any(|x| x.is_empty());
-                let mut token_set = TokenSet::new();
-                let mut transparency_changed = true;
-                while transparency_changed {
-                    transparency_changed = false;
-                    for production in relevant_productions.iter() {
-                        let mut transparent_production = true;
-                        for rhs_symbol in production.right_hand_side_symbols() {
-                            match rhs_symbol {
-                                Symbol::NonTerminal(non_terminal) => {
-                                    if non_terminal == self {
-                                        if transparent {
-                                            continue;
-                                        } else {
-                                            transparent_production = false;
-                                            break;
-                                        }
-                                    }
-                                    if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
-                                    }
-                                    let firsts_data = non_terminal.firsts_data();
-                                    token_set |= &firsts_data.token_set;
-                                    if !firsts_data.transparent {
-                                        transparent_production = false;
-                                        break;
+                let current = non_terminal_data.firsts_data.borrow().clone();
+                let is_first_time = current.is_none();
+                let FirstsData {
+                    mut token_set,
+                    mut transparent,
+                } = current.unwrap_or_default();
+                let old_len = token_set.len();
+                let was_transparent = transparent;
+                for production in productions.iter().filter(|x| x.left_hand_side() == self) {
+                    let mut transparent_production = true;
+                    for rhs_symbol in production.right_hand_side_symbols() {
+                        match rhs_symbol {
+                            Symbol::NonTerminal(non_terminal) => {
+                                let firsts_data = match non_terminal {
+                                    NonTerminal::UserDefined(other)
+                                    | NonTerminal::Error(other)
+                                    | NonTerminal::Start(other) => {
+                                        other.firsts_data.borrow().clone().unwrap_or_default()
                                     }
-                                }
-                                Symbol::Terminal(token) => {
-                                    token_set.insert(token);
+                                };
+                                token_set |= &firsts_data.token_set;
+                                if !firsts_data.transparent {
                                     transparent_production = false;
                                     break;
                                 }
                             }
-                        }
-                        if transparent_production {
-                            transparency_changed = !transparent;
-                            transparent = true;
+                            Symbol::Terminal(token) => {
+                                token_set.insert(token);
+                                transparent_production = false;
+                                break;
+                            }
                         }
                     }
+                    transparent |= transparent_production;
                 }
+                let changed = token_set.len() > old_len || transparent != was_transparent;
                 *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
                     token_set,
                     transparent,
                 });
+                changed || is_first_time
             }
         }
     }
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 7d7129c..e05b07e 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -52,16 +52,18 @@ impl Specification {
         if !spec.symbol_table.error_non_terminal().is_unused() {
             spec.productions.push(Production::new(symbol, tail));
         }
-        spec.symbol_table
-            .start_non_terminal()
-            .set_firsts_data(&spec.productions);
-        spec.symbol_table
-            .error_non_terminal()
-            .set_firsts_data(&spec.productions);
-        for non_terminal in spec.symbol_table.non_terminals() {
-            //if non_terminal.firsts_data_is_none() {
-            non_terminal.set_firsts_data(&spec.productions)
-            //}
+        let mut changed = true;
+        while changed {
+            changed = false;
+            for non_terminal in [
+                spec.symbol_table.start_non_terminal(),
+                spec.symbol_table.error_non_terminal(),
+            ]
+            .into_iter()
+            .chain(spec.symbol_table.non_terminals())
+            {
+                changed |= non_terminal.update_firsts_data(&spec.productions);
+            }
         }
         Ok(spec)
     }
diff --git a/lalr1_lib/src/symbol/non_terminal.rs b/lalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..d2bdde6 100644
--- a/lalr1_lib/src/symbol/non_terminal.rs
+++ b/lalr1_lib/src/symbol/non_terminal.rs
@@ -180,74 +180,55 @@ impl NonTerminal {
         }
     }
 
-    fn firsts_data_is_set(&self) -> bool {
+    /// Update our firsts data using what is known so far about the symbols in our productions.
+    /// Returns `true` if that added something i.e. the caller needs to repeat this for all non
+    /// terminals until nothing changes.
+    pub fn update_firsts_data(&self, productions: &[Production]) -> bool {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().is_some()
-            }
-        }
-    }
-
-    pub fn set_firsts_data(&self, productions: &[Production]) {
-        match self {
-            NonTerminal::UserDefined(non_terminal_data)
-            | NonTerminal::Error(non_terminal_data)
-            | NonTerminal::Start(non_terminal_data) => {
-                if non_terminal_data.firsts_data.borrow().is_some() {
-                    return;
-                }
-                let relevant_productions: Vec<Production> = productions
-                    .iter()
-                    .filter(|x| x.left_hand_side() == self)
-                    .cloned()
-                    .collect();
-                let mut transparent = relevant_productions.iter().any(|x| x.is_empty());
-                let mut token_set = TokenSet::new();
-                let mut transparency_changed = true;
-                while transparency_changed {
-                    transparency_changed = false;
-                    for production in relevant_productions.iter() {
-                        let mut transparent_production = true;
-                        for rhs_symbol in production.right_hand_side_symbols() {
-                            match rhs_symbol {
-                                Symbol::NonTerminal(non_terminal) => {
-                                    if non_terminal == self {
-                                        if transparent {
-                                            continue;
-                                        } else {
-                                            transparent_production = false;
-                                            break;
-                                        }
-                                    }
-                                    if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
-                                    }
-                                    let firsts_data = non_terminal.firsts_data();
-                                    token_set |= &firsts_data.token_set;
-                                    if !firsts_data.transparent {
-                                        transparent_production = false;
-                                        break;
+                let current = non_terminal_data.firsts_data.borrow().clone();
+                let is_first_time = current.is_none();
+                let FirstsData {
+                    mut token_set,
+                    mut transparent,
+                } = current.unwrap_or_default();
+                let old_len = token_set.len();
+                let was_transparent = transparent;
+                for production in productions.iter().filter(|x| x.left_hand_side() == self) {
+                    let mut transparent_production = true;
+                    for rhs_symbol in production.right_hand_side_symbols() {
+                        match rhs_symbol {
+                            Symbol::NonTerminal(non_terminal) => {
+                                let firsts_data = match non_terminal {
+                                    NonTerminal::UserDefined(other)
+                                    | NonTerminal::Error(other)
+                                    | NonTerminal::Start(other) => {
+                                        other.firsts_data.borrow().clone().unwrap_or_default()
                                     }
-                                }
-                                Symbol::Terminal(token) => {
-                                    token_set.insert(token);
+                                };
+                                token_set |= &firsts_data.token_set;
+                                if !firsts_data.transparent {
                                     transparent_production = false;
                                     break;
                                 }
                             }
-                        }
-                        if transparent_production {
-                            transparency_changed = !transparent;
-                            transparent = true;
+                            Symbol::Terminal(token) => {
+                                token_set.insert(token);
+                                transparent_production = false;
+                                break;
+                            }
                         }
                     }
+                    transparent |= transparent_production;
                 }
+                let changed = token_set.len() > old_len || transparent != was_transparent;
                 *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
                     token_set,
                     transparent,
                 });
+                changed || is_first_time
             }
         }
     }
-- 
2.43.0


From a0fb6fb3f07a554eba155a604ae4de37608b9272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 10/25] fix: merge the look-aheads of all items when a state is
 reached again

Only kernel items were merged, so reductions and expected tokens belonging to
items added by closure lacked the look-aheads of later contexts and valid texts
were rejected.
---
 alalr1_lib/src/state.rs | 2 +-
 lalr1_lib/src/state.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 8f230af..cb53d72 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -101,7 +101,7 @@ impl ParserState {
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
+        for (key, other_look_ahead_set) in item_set.iter() {
             if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 88e6d69..8536e07 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -101,7 +101,7 @@ impl ParserState {
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
+        for (key, other_look_ahead_set) in item_set.iter() {
             if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
-- 
2.43.0


From 2ac7164032ac09393ca94b7a122facb36dbc108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 11/25] fix: number productions per specification instead of
 per process

Production ids came from a process wide counter, so only the first grammar
processed had a production 0, which is what identifies the start production:
any later parser never accepted anything.
---
 alalr1_lib/src/grammar.rs    | 12 ++++++++----
 alalr1_lib/src/production.rs | 11 +++--------
 lalr1_lib/src/grammar.rs     | 12 ++++++++----
 lalr1_lib/src/production.rs  | 11 +++--------
 4 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index ba273d4..f911f74 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -54,7 +54,8 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            spec.productions
+                .push(Production::new(spec.productions.len(), symbol, tail));
         }
         let mut changed = true;
         while changed {
@@ -98,11 +99,14 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None, None);
-            let start_production = Production::new(start_symbol, start_tail);
+            let start_production = Production::new(0, start_symbol, start_tail);
             self.productions.push(start_production);
         }
-        self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+        self.productions.push(Production::new(
+            self.productions.len(),
+            left_hand_side.clone(),
+            tail.clone(),
+        ));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 6ceb740..4661e8d 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -71,11 +70,6 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
-    }
-
     pub fn is_zero(&self) -> bool {
         self.0 == 0
     }
@@ -108,9 +102,10 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    /// `index` is the position of the production in its specification
+    pub fn new(index: usize, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId(index as u32),
             left_hand_side,
             tail,
         }))
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index e05b07e..b908450 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -50,7 +50,8 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            spec.productions
+                .push(Production::new(spec.productions.len(), symbol, tail));
         }
         let mut changed = true;
         while changed {
@@ -94,11 +95,14 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None);
-            let start_production = Production::new(start_symbol, start_tail);
+            let start_production = Production::new(0, start_symbol, start_tail);
             self.productions.push(start_production);
         }
-        self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+        self.productions.push(Production::new(
+            self.productions.len(),
+            left_hand_side.clone(),
+            tail.clone(),
+        ));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index fc7deb6..53d290d 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -67,11 +66,6 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
-    }
-
     pub fn is_zero(&self) -> bool {
         self.0 == 0
     }
@@ -104,9 +98,10 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    /// `index` is the position of the production in its specification
+    pub fn new(index: usize, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId(index as u32),
             left_hand_side,
             tail,
         }))
-- 
2.43.0


From 7cfd3a6fd35d0c0aab8c138732f9b3111d163d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:50 +0000
Subject: [PATCH 12/25] fix: emit working code for predicates that may all be
 false

A predicate on the only production for some token made code generation panic
(or, without debug assertions, be ignored) and a choice between guarded
productions only was emitted without a final else branch, which doesn't compile.
If no predicate holds there is no action i.e. it's a syntax error.
---
 alalr1_lib/src/state.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index cb53d72..47577a2 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -290,10 +290,10 @@ impl ParserState {
             ))?;
         }
         for (productions, look_ahead_set) in reductions.reductions() {
-            if productions.len() == 1 {
-                // NB this is clumsy but first() for OrderedSet is only experimental
-                let production = productions.iter().next().expect("len() == 1");
-                debug_assert!(!production.has_predicate());
+            // NB this is clumsy but first() for OrderedSet is only experimental
+            let production = productions.iter().next().expect("len() >= 1");
+            if !production.has_predicate() {
+                debug_assert!(productions.len() == 1);
                 wtr.write_fmt(format_args!("{indent}    // {production}\n"))?;
                 if production.is_start_production() {
                     wtr.write_fmt(format_args!(
@@ -315,20 +315,13 @@ impl ParserState {
                     indent,
                     look_ahead_set.formated_as_or_list()
                 ))?;
+                let mut has_default = false;
                 for (i, production) in productions.iter().enumerate() {
-                    if i == 0 {
-                        wtr.write_fmt(format_args!(
-                            "{}        if {} {{\n",
-                            indent,
-                            production.expanded_predicate().expect("more than one")
-                        ))?;
-                    } else if production.has_predicate() {
-                        wtr.write_fmt(format_args!(
-                            "{}        }} else if {} {{\n",
-                            indent,
-                            production.expanded_predicate().expect("more than one")
-                        ))?;
+                    let keyword = if i == 0 { "if" } else { "} else if" };
+                    if let Some(predicate) = production.expanded_predicate() {
+                        wtr.write_fmt(format_args!("{indent}        {keyword} {predicate} {{\n"))?;
                     } else {
+                        has_default = true;
                         wtr.write_fmt(format_args!("{indent}        }} else {{\n",))?;
                     }
                     wtr.write_fmt(format_args!("{indent}            // {production}\n"))?;
@@ -342,6 +335,10 @@ impl ParserState {
                         ))?;
                     }
                 }
+                if !has_default {
+                    wtr.write_fmt(format_args!("{indent}        }} else {{\n",))?;
+                    wtr.write_fmt(format_args!("{indent}            Action::SyntaxError\n",))?;
+                }
                 wtr.write_fmt(format_args!("{indent}        }}\n"))?;
                 wtr.write_fmt(format_args!("{indent}    }}\n"))?;
             }
-- 
2.43.0


From 6bd34195e56fb969f9e562f2921ee6aaacb3258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 13/25] fix: emit literals and patterns with braces or
 quote-hashes as valid code

A literal containing { or } was emitted as a format string and one (or a pattern)
containing a quote followed by hashes ended the raw string early, so the
generated code didn't compile.
---
 alalr1_lib/src/grammar.rs | 38 +++++++++++++++++++++++++++-----------
 lalr1_lib/src/grammar.rs  | 38 +++++++++++++++++++++++++++-----------
 2 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index f911f74..2638107 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -19,6 +19,20 @@ use std::io;
 use std::io::{Write, stderr};
 use std::path::Path;
 
+/// Rust source code for a string literal with the value `text`
+fn raw_string_literal(text: &str) -> String {
+    let mut hashes = "###".to_string();
+    while text.contains(&format!("\"{hashes}")) {
+        hashes.push('#');
+    }
+    format!("r{hashes}\"{text}\"{hashes}")
+}
+
+/// The text matched by a literal token which was specified as `quoted_text`
+fn literal_lexeme(quoted_text: &str) -> &str {
+    &quoted_text[1..quoted_text.len() - 1]
+}
+
 pub fn report_error(location: &lexan::Location, what: &str) {
     writeln!(stderr(), "{location}: Error: {what}.").expect("what?");
 }
@@ -434,21 +448,23 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
-                        token_data.name, token_data.text
+                        "{} => f.write_str({}),\n",
+                        token_data.name,
+                        raw_string_literal(&token_data.text)
                     ))?;
                 }
                 Token::Regex(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
-                        token_data.name, token_data.name
+                        "{} => f.write_str({}),\n",
+                        token_data.name,
+                        raw_string_literal(&token_data.name)
                     ))?;
                 }
                 Token::End => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => f.write_str({}),\n",
                         token.name(),
-                        token.name()
+                        raw_string_literal(token.name())
                     ))?;
                 }
             }
@@ -492,9 +508,9 @@ impl Grammar {
         for token in self.specification.symbol_table.literal_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###{}###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string_literal(literal_lexeme(token.text()))
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
@@ -502,16 +518,16 @@ impl Grammar {
         for token in self.specification.symbol_table.regex_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###\"{}\"###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string_literal(token.text())
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_all(b"            &[\n")?;
         for skip_rule in self.specification.symbol_table.skip_rules() {
             wtr.write_all(b"                ")?;
-            wtr.write_fmt(format_args!("r###\"{skip_rule}\"###,\n"))?;
+            wtr.write_fmt(format_args!("{},\n", raw_string_literal(skip_rule)))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_fmt(format_args!("            {},\n", Token::End.name()))?;
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index b908450..a070195 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -15,6 +15,20 @@ use std::io;
 use std::io::{Write, stderr};
 use std::path::Path;
 
+/// Rust source code for a string literal with the value `text`
+fn raw_string_literal(text: &str) -> String {
+    let mut hashes = "###".to_string();
+    while text.contains(&format!("\"{hashes}")) {
+        hashes.push('#');
+    }
+    format!("r{hashes}\"{text}\"{hashes}")
+}
+
+/// The text matched by a literal token which was specified as `quoted_text`
+fn literal_lexeme(quoted_text: &str) -> &str {
+    &quoted_text[1..quoted_text.len() - 1]
+}
+
 pub fn report_error(location: &lexan::Location, what: &str) {
     writeln!(stderr(), "{location}: Error: {what}.").expect("what?");
 }
@@ -430,21 +444,23 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
-                        token_data.name, token_data.text
+                        "{} => f.write_str({}),\n",
+                        token_data.name,
+                        raw_string_literal(&token_data.text)
                     ))?;
                 }
                 Token::Regex(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
-                        token_data.name, token_data.name
+                        "{} => f.write_str({}),\n",
+                        token_data.name,
+                        raw_string_literal(&token_data.name)
                     ))?;
                 }
                 Token::End => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => f.write_str({}),\n",
                         token.name(),
-                        token.name()
+                        raw_string_literal(token.name())
                     ))?;
                 }
             }
@@ -488,9 +504,9 @@ impl Grammar {
         for token in self.specification.symbol_table.literal_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###{}###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string_literal(literal_lexeme(token.text()))
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
@@ -498,16 +514,16 @@ impl Grammar {
         for token in self.specification.symbol_table.regex_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###\"{}\"###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string_literal(token.text())
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_all(b"            &[\n")?;
         for skip_rule in self.specification.symbol_table.skip_rules() {
             wtr.write_all(b"                ")?;
-            wtr.write_fmt(format_args!("r###\"{skip_rule}\"###,\n"))?;
+            wtr.write_fmt(format_args!("{},\n", raw_string_literal(skip_rule)))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_fmt(format_args!("            {},\n", Token::End.name()))?;
-- 
2.43.0


From 3d7a9485a7805ce1502438ad4819f61b41f71c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 14/25] fix: a \" in a literal token stands for a quote

The specification language allows escaped quotes in literals but the backslash
was made part of the text to be matched so there was no way to match a quote.
---
 alalr1_lib/src/grammar.rs | 6 +++---
 lalr1_lib/src/grammar.rs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 2638107..7fc016d 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -29,8 +29,8 @@ fn raw_string_literal(text: &str) -> String {
 }
 
 /// The text matched by a literal token which was specified as `quoted_text`
-fn literal_lexeme(quoted_text: &str) -> &str {
-    &quoted_text[1..quoted_text.len() - 1]
+fn literal_lexeme(quoted_text: &str) -> String {
+    quoted_text[1..quoted_text.len() - 1].replace("\\\"", "\"")
 }
 
 pub fn report_error(location: &lexan::Location, what: &str) {
@@ -510,7 +510,7 @@ impl Grammar {
             wtr.write_fmt(format_args!(
                 "({}, {}),\n",
                 token.name(),
-                raw_string_literal(literal_lexeme(token.text()))
+                raw_string_literal(&literal_lexeme(token.text()))
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index a070195..4ec138b 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -25,8 +25,8 @@ fn raw_string_literal(text: &str) -> String {
 }
 
 /// The text matched by a literal token which was specified as `quoted_text`
-fn literal_lexeme(quoted_text: &str) -> &str {
-    &quoted_text[1..quoted_text.len() - 1]
+fn literal_lexeme(quoted_text: &str) -> String {
+    quoted_text[1..quoted_text.len() - 1].replace("\\\"", "\"")
 }
 
 pub fn report_error(location: &lexan::Location, what: &str) {
@@ -506,7 +506,7 @@ impl Grammar {
             wtr.write_fmt(format_args!(
                 "({}, {}),\n",
                 token.name(),
-                raw_string_literal(literal_lexeme(token.text()))
+                raw_string_literal(&literal_lexeme(token.text()))
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
-- 
2.43.0


From 0f449f0d1b80c0ef17b89fda913d71e97925e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 15/25] fix: keep predicates spanning lines inside generated
 comments

Productions are described in one line comments in generated code, but a multi
line predicate was copied verbatim, so the code didn't compile.
---
 alalr1_lib/src/production.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 4661e8d..f096b4d 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -225,7 +225,7 @@ impl Display for Production {
         };
         string += &format!(" #({}, {})", self.associativity(), self.precedence());
         if let Some(predicate) = &self.0.tail.0.predicate {
-            string += &format!(" ?({predicate}?)");
+            string += &format!(" ?({}?)", predicate.replace(['\n', '\r'], " "));
         };
         write!(f, "{string}")
     }
@@ -275,7 +275,7 @@ impl Display for GrammarItemKey {
             self.production.precedence()
         );
         if let Some(predicate) = &self.production.0.tail.0.predicate {
-            string += &format!(" ?({predicate}?)");
+            string += &format!(" ?({}?)", predicate.replace(['\n', '\r'], " "));
         };
         write!(f, "{string}")
     }
-- 
2.43.0


From 061abd9c4ce7cf83ec8d42a5978358fe5568389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:57 +0000
Subject: [PATCH 16/25] fix: diagnose duplicate tags and token names used for
 non-terminals

Both were reported but then the generator panicked because the semantic action
left an attribute of the wrong kind behind.
---
 alalr1_lib/src/parser.alaps | 12 ++++++++++--
 alalr1_lib/src/parser.rs    | 12 ++++++++++--
 lalr1_lib/src/parser.laps   | 12 ++++++++++--
 lalr1_lib/src/parser.rs     | 12 ++++++++++--
 4 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index c95b08a..3ec4fee 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -10,6 +10,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 %}
@@ -275,7 +276,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
@@ -303,7 +307,11 @@ ProductionGroupHead: Ident ":"
                 Ok(non_terminal) => {
                     $$ = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    let non_terminal = NonTerminal::new_defined(name, location);
+                    $$ = AttributeData::LeftHandSide(non_terminal);
+                }
             }
         !}
     .
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index c6ce0f9..feb5776 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -8,6 +8,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 use lalr1::OrderedSet;
@@ -1514,7 +1515,10 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
@@ -1537,7 +1541,11 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 Ok(non_terminal) => {
                     aa_lhs = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    let non_terminal = NonTerminal::new_defined(name, location);
+                    aa_lhs = AttributeData::LeftHandSide(non_terminal);
+                }
             }
         
             }
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index 7a12830..caea3a8 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -12,6 +12,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 %}
@@ -279,7 +280,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
@@ -307,7 +311,11 @@ ProductionGroupHead: Ident ":"
                 Ok(non_terminal) => {
                     $$ = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    let non_terminal = NonTerminal::new_defined(name, location);
+                    $$ = AttributeData::LeftHandSide(non_terminal);
+                }
             }
         !}
     .
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index a61bd30..4044831 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -10,6 +10,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 use lalr1::OrderedSet;
@@ -1435,7 +1436,10 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
@@ -1458,7 +1462,11 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 Ok(non_terminal) => {
                     aa_lhs = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    let non_terminal = NonTerminal::new_defined(name, location);
+                    aa_lhs = AttributeData::LeftHandSide(non_terminal);
+                }
             }
         
             }
-- 
2.43.0


From 1fd49ddcb289d2a2dc629441401a16a8624c9356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:10 +0000
Subject: [PATCH 17/25] fix: refuse specifications whose lexicon the generated
 parser would panic on

An empty literal, a literal equal to a pattern, or a skip rule equal to a token's
definition was accepted, but creating the lexical analyzer then panicked.
---
 alalr1_lib/src/grammar.rs         |  7 +------
 alalr1_lib/src/symbol.rs          | 21 +++++++++++++++++++++
 alalr1_lib/src/symbol/terminal.rs | 11 +++++++++++
 lalr1_lib/src/grammar.rs          |  7 +------
 lalr1_lib/src/symbol.rs           | 21 +++++++++++++++++++++
 lalr1_lib/src/symbol/terminal.rs  | 11 +++++++++++
 6 files changed, 66 insertions(+), 12 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 7fc016d..8f70b8a 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -28,11 +28,6 @@ fn raw_string_literal(text: &str) -> String {
     format!("r{hashes}\"{text}\"{hashes}")
 }
 
-/// The text matched by a literal token which was specified as `quoted_text`
-fn literal_lexeme(quoted_text: &str) -> String {
-    quoted_text[1..quoted_text.len() - 1].replace("\\\"", "\"")
-}
-
 pub fn report_error(location: &lexan::Location, what: &str) {
     writeln!(stderr(), "{location}: Error: {what}.").expect("what?");
 }
@@ -510,7 +505,7 @@ impl Grammar {
             wtr.write_fmt(format_args!(
                 "({}, {}),\n",
                 token.name(),
-                raw_string_literal(&literal_lexeme(token.text()))
+                raw_string_literal(&token.pattern())
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
diff --git a/alalr1_lib/src/symbol.rs b/alalr1_lib/src/symbol.rs
index 1ebb75d..3be72be 100644
--- a/alalr1_lib/src/symbol.rs
+++ b/alalr1_lib/src/symbol.rs
@@ -71,6 +71,7 @@ pub enum Error {
     DuplicateTokenDefinition(Token),
     ConflictsWithToken(Token),
     DuplicateSkipRule(String),
+    EmptyLiteral(Token),
 }
 
 impl fmt::Display for Error {
@@ -111,6 +112,9 @@ impl fmt::Display for Error {
             Error::DuplicateSkipRule(string) => {
                 write!(f, "Skip rule \"{string}\" already defined.",)
             }
+            Error::EmptyLiteral(token) => {
+                write!(f, "Token \"{}\" can't match any text", token.name())
+            }
         }
     }
 }
@@ -188,10 +192,15 @@ impl SymbolTable {
         defined_at: &lexan::Location,
     ) -> Result<Token, Error> {
         let token = Token::new_literal_token(name, text, defined_at);
+        let other_token = self.token_with_pattern(&token.pattern());
         if let Some(other) = self.tokens.insert(name.to_string(), token.clone()) {
             Err(Error::DuplicateToken(other))
+        } else if token.pattern().is_empty() {
+            Err(Error::EmptyLiteral(token))
         } else if let Some(other) = self.literal_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
+        } else if let Some(other) = other_token {
+            Err(Error::DuplicateTokenDefinition(other))
         } else {
             Ok(token)
         }
@@ -204,15 +213,25 @@ impl SymbolTable {
         defined_at: &lexan::Location,
     ) -> Result<Token, Error> {
         let token = Token::new_regex_token(name, text, defined_at);
+        let other_token = self.token_with_pattern(&token.pattern());
         if let Some(other) = self.tokens.insert(name.to_string(), token.clone()) {
             Err(Error::DuplicateToken(other))
         } else if let Some(other) = self.regex_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
+        } else if let Some(other) = other_token {
+            Err(Error::DuplicateTokenDefinition(other))
         } else {
             Ok(token)
         }
     }
 
+    fn token_with_pattern(&self, pattern: &str) -> Option<Token> {
+        self.tokens
+            .values()
+            .find(|token| token.pattern() == pattern)
+            .cloned()
+    }
+
     pub fn get_token(&self, name: &str) -> Option<&Token> {
         self.tokens.get(name)
     }
@@ -295,6 +314,8 @@ impl SymbolTable {
     pub fn add_skip_rule(&mut self, skip_rule: &String) -> Result<(), Error> {
         if self.skip_rules.contains(skip_rule) {
             Err(Error::DuplicateSkipRule(skip_rule.to_string()))
+        } else if let Some(token) = self.token_with_pattern(skip_rule) {
+            Err(Error::DuplicateTokenDefinition(token))
         } else {
             self.skip_rules.push(skip_rule.to_string());
             Ok(())
diff --git a/alalr1_lib/src/symbol/terminal.rs b/alalr1_lib/src/symbol/terminal.rs
index 338c8c8..58a37d4 100644
--- a/alalr1_lib/src/symbol/terminal.rs
+++ b/alalr1_lib/src/symbol/terminal.rs
@@ -101,6 +101,17 @@ impl Token {
         }
     }
 
+    /// The literal text or regular expression that this token matches
+    pub fn pattern(&self) -> String {
+        match self {
+            Token::Literal(_) => {
+                let text = self.text();
+                text[1..text.len() - 1].replace("\\\"", "\"")
+            }
+            _ => self.text().to_string(),
+        }
+    }
+
     pub fn defined_at(&self) -> &lexan::Location {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => &token_data.defined_at,
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 4ec138b..9e98814 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -24,11 +24,6 @@ fn raw_string_literal(text: &str) -> String {
     format!("r{hashes}\"{text}\"{hashes}")
 }
 
-/// The text matched by a literal token which was specified as `quoted_text`
-fn literal_lexeme(quoted_text: &str) -> String {
-    quoted_text[1..quoted_text.len() - 1].replace("\\\"", "\"")
-}
-
 pub fn report_error(location: &lexan::Location, what: &str) {
     writeln!(stderr(), "{location}: Error: {what}.").expect("what?");
 }
@@ -506,7 +501,7 @@ impl Grammar {
             wtr.write_fmt(format_args!(
                 "({}, {}),\n",
                 token.name(),
-                raw_string_literal(&literal_lexeme(token.text()))
+                raw_string_literal(&token.pattern())
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
diff --git a/lalr1_lib/src/symbol.rs b/lalr1_lib/src/symbol.rs
index ed3d639..f736676 100644
--- a/lalr1_lib/src/symbol.rs
+++ b/lalr1_lib/src/symbol.rs
@@ -71,6 +71,7 @@ pub enum Error {
     DuplicateTokenDefinition(Token),
     ConflictsWithToken(Token),
     DuplicateSkipRule(String),
+    EmptyLiteral(Token),
 }
 
 impl fmt::Display for Error {
@@ -111,6 +112,9 @@ impl fmt::Display for Error {
             Error::DuplicateSkipRule(string) => {
                 write!(f, "Skip rule \"{string}\" already defined.",)
             }
+            Error::EmptyLiteral(token) => {
+                write!(f, "Token \"{}\" can't match any text", token.name())
+            }
         }
     }
 }
@@ -188,10 +192,15 @@ impl SymbolTable {
         defined_at: &lexan::Location,
     ) -> Result<Token, Error> {
         let token = Token::new_literal_token(name, text, defined_at);
+        let other_token = self.token_with_pattern(&token.pattern());
         if let Some(other) = self.tokens.insert(name.to_string(), token.clone()) {
             Err(Error::DuplicateToken(other))
+        } else if token.pattern().is_empty() {
+            Err(Error::EmptyLiteral(token))
         } else if let Some(other) = self.literal_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
+        } else if let Some(other) = other_token {
+            Err(Error::DuplicateTokenDefinition(other))
         } else {
             Ok(token)
         }
@@ -204,15 +213,25 @@ impl SymbolTable {
         defined_at: &lexan::Location,
     ) -> Result<Token, Error> {
         let token = Token::new_regex_token(name, text, defined_at);
+        let other_token = self.token_with_pattern(&token.pattern());
         if let Some(other) = self.tokens.insert(name.to_string(), token.clone()) {
             Err(Error::DuplicateToken(other))
         } else if let Some(other) = self.regex_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
+        } else if let Some(other) = other_token {
+            Err(Error::DuplicateTokenDefinition(other))
         } else {
             Ok(token)
         }
     }
 
+    fn token_with_pattern(&self, pattern: &str) -> Option<Token> {
+        self.tokens
+            .values()
+            .find(|token| token.pattern() == pattern)
+            .cloned()
+    }
+
     pub fn get_token(&self, name: &str) -> Option<&Token> {
         self.tokens.get(name)
     }
@@ -295,6 +314,8 @@ impl SymbolTable {
     pub fn add_skip_rule(&mut self, skip_rule: &String) -> Result<(), Error> {
         if self.skip_rules.contains(skip_rule) {
             Err(Error::DuplicateSkipRule(skip_rule.to_string()))
+        } else if let Some(token) = self.token_with_pattern(skip_rule) {
+            Err(Error::DuplicateTokenDefinition(token))
         } else {
             self.skip_rules.push(skip_rule.to_string());
             Ok(())
diff --git a/lalr1_lib/src/symbol/terminal.rs b/lalr1_lib/src/symbol/terminal.rs
index f5a6ad8..5047aec 100644
--- a/lalr1_lib/src/symbol/terminal.rs
+++ b/lalr1_lib/src/symbol/terminal.rs
@@ -101,6 +101,17 @@ impl Token {
         }
     }
 
+    /// The literal text or regular expression that this token matches
+    pub fn pattern(&self) -> String {
+        match self {
+            Token::Literal(_) => {
+                let text = self.text();
+                text[1..text.len() - 1].replace("\\\"", "\"")
+            }
+            _ => self.text().to_string(),
+        }
+    }
+
     pub fn defined_at(&self) -> &lexan::Location {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => &token_data.defined_at,
-- 
2.43.0


From bf2cf490ad5ee68ca49375a5b42a102aa83f84c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:11 +0000
Subject: [PATCH 18/25] fix: tokens and non terminals called token, state, lhs
 or set broke the generated code

---
 alalr1_lib/src/grammar.rs | 30 ++++++++++++++++--------------
 alalr1_lib/src/state.rs   |  8 ++++++--
 lalr1_lib/src/grammar.rs  | 32 ++++++++++++++++++--------------
 lalr1_lib/src/state.rs    |  8 ++++++--
 4 files changed, 46 insertions(+), 32 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 8f70b8a..3ccc940 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -413,9 +413,9 @@ impl Grammar {
         wtr.write_all(b"    () => { OrderedSet::new() };\n")?;
         wtr.write_all(b"    ( $( $x:expr ),* ) => {\n")?;
         wtr.write_all(b"        {\n")?;
-        wtr.write_all(b"            let mut set = OrderedSet::new();\n")?;
-        wtr.write_all(b"            $( set.insert($x); )*\n")?;
-        wtr.write_all(b"            set\n")?;
+        wtr.write_all(b"            let mut aa_set = OrderedSet::new();\n")?;
+        wtr.write_all(b"            $( aa_set.insert($x); )*\n")?;
+        wtr.write_all(b"            aa_set\n")?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    };\n")?;
         wtr.write_all(b"    ( $( $x:expr ),+ , ) => {\n")?;
@@ -596,9 +596,9 @@ impl Grammar {
             wtr.write_all(b"    }\n\n")?;
         } else {
             wtr.write_all(
-                b"    fn viable_error_recovery_states(token: &AATerminal) -> OrderedSet<u32> {\n",
+                b"    fn viable_error_recovery_states(aa_token: &AATerminal) -> OrderedSet<u32> {\n",
             )?;
-            wtr.write_all(b"        match token {\n")?;
+            wtr.write_all(b"        match aa_token {\n")?;
             for (name, set) in recovery_states {
                 wtr.write_fmt(format_args!(
                     "            AATerminal::{} => {},\n",
@@ -611,8 +611,8 @@ impl Grammar {
             }
             wtr.write_all(b"        }\n")?;
             wtr.write_all(b"    }\n\n")?;
-            wtr.write_all(b"    fn error_goto_state(state: u32) -> u32 {\n")?;
-            wtr.write_all(b"        match state {\n")?;
+            wtr.write_all(b"    fn error_goto_state(aa_state: u32) -> u32 {\n")?;
+            wtr.write_all(b"        match aa_state {\n")?;
             for parser_state in self.parser_states.iter() {
                 if let Some(goto_state_id) = parser_state.error_goto_state_ident() {
                     wtr.write_fmt(format_args!(
@@ -622,7 +622,7 @@ impl Grammar {
                     ))?;
                 }
             }
-            wtr.write_all(b"            _ => panic!(\"No error go to state for {state}\")\n")?;
+            wtr.write_all(b"            _ => panic!(\"No error go to state for {aa_state}\")\n")?;
             wtr.write_all(b"        }\n")?;
             wtr.write_all(b"    }\n\n")?;
         }
@@ -630,9 +630,9 @@ impl Grammar {
     }
 
     fn write_look_ahead_set_code<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
-        wtr.write_all(b"    fn look_ahead_set(state: u32) -> OrderedSet<AATerminal> {\n")?;
+        wtr.write_all(b"    fn look_ahead_set(aa_state: u32) -> OrderedSet<AATerminal> {\n")?;
         wtr.write_all(b"        use AATerminal::*;\n")?;
-        wtr.write_all(b"        match state {\n")?;
+        wtr.write_all(b"        match aa_state {\n")?;
         for parser_state in self.parser_states.iter() {
             wtr.write_fmt(format_args!(
                 "            {} => {},\n",
@@ -640,7 +640,7 @@ impl Grammar {
                 parser_state.look_ahead_set().formated_as_macro_call()
             ))?;
         }
-        wtr.write_all(b"            _ => panic!(\"illegal state: {state}\"),\n")?;
+        wtr.write_all(b"            _ => panic!(\"illegal state: {aa_state}\"),\n")?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    }\n\n")?;
         Ok(())
@@ -670,13 +670,15 @@ impl Grammar {
     }
 
     fn write_goto_table_code<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
-        wtr.write_all(b"    fn goto_state(lhs: &AANonTerminal, current_state: u32) -> u32 {\n")?;
-        wtr.write_all(b"        match current_state {\n")?;
+        wtr.write_all(
+            b"    fn goto_state(aa_lhs: &AANonTerminal, aa_current_state: u32) -> u32 {\n",
+        )?;
+        wtr.write_all(b"        match aa_current_state {\n")?;
         for parser_state in self.parser_states.iter() {
             parser_state.write_goto_table_code(wtr, "            ")?;
         }
         wtr.write_all(
-            b"            _ => panic!(\"Malformed goto table: ({lhs}, {current_state})\"),\n",
+            b"            _ => panic!(\"Malformed goto table: ({aa_lhs}, {aa_current_state})\"),\n",
         )?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    }\n\n")?;
diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 47577a2..38bd468 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -354,7 +354,11 @@ impl ParserState {
         indent: &str,
     ) -> std::io::Result<()> {
         if !self.0.goto_table.borrow().is_empty() {
-            wtr.write_fmt(format_args!("{}{} => match lhs {{\n", indent, self.ident()))?;
+            wtr.write_fmt(format_args!(
+                "{}{} => match aa_lhs {{\n",
+                indent,
+                self.ident()
+            ))?;
             for (non_terminal, state) in self.0.goto_table.borrow().iter() {
                 wtr.write_fmt(format_args!(
                     "{}    AANonTerminal::{} => {},\n",
@@ -364,7 +368,7 @@ impl ParserState {
                 ))?;
             }
             wtr.write_fmt(format_args!(
-                "{indent}    _ => panic!(\"Malformed goto table: ({{lhs}}, {{current_state}})\"),\n"
+                "{indent}    _ => panic!(\"Malformed goto table: ({{aa_lhs}}, {{aa_current_state}})\"),\n"
             ))?;
             wtr.write_fmt(format_args!("{indent}}},\n"))?;
         };
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 9e98814..5c4c437 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -409,9 +409,9 @@ impl Grammar {
         wtr.write_all(b"    () => { OrderedSet::new() };\n")?;
         wtr.write_all(b"    ( $( $x:expr ),* ) => {\n")?;
         wtr.write_all(b"        {\n")?;
-        wtr.write_all(b"            let mut set = OrderedSet::new();\n")?;
-        wtr.write_all(b"            $( set.insert($x); )*\n")?;
-        wtr.write_all(b"            set\n")?;
+        wtr.write_all(b"            let mut aa_set = OrderedSet::new();\n")?;
+        wtr.write_all(b"            $( aa_set.insert($x); )*\n")?;
+        wtr.write_all(b"            aa_set\n")?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    };\n")?;
         wtr.write_all(b"    ( $( $x:expr ),+ , ) => {\n")?;
@@ -592,9 +592,9 @@ impl Grammar {
             wtr.write_all(b"    }\n\n")?;
         } else {
             wtr.write_all(
-                b"    fn viable_error_recovery_states(token: &AATerminal) -> OrderedSet<u32> {\n",
+                b"    fn viable_error_recovery_states(aa_token: &AATerminal) -> OrderedSet<u32> {\n",
             )?;
-            wtr.write_all(b"        match token {\n")?;
+            wtr.write_all(b"        match aa_token {\n")?;
             for (name, set) in recovery_states {
                 wtr.write_fmt(format_args!(
                     "            AATerminal::{} => {},\n",
@@ -607,8 +607,8 @@ impl Grammar {
             }
             wtr.write_all(b"        }\n")?;
             wtr.write_all(b"    }\n\n")?;
-            wtr.write_all(b"    fn error_goto_state(state: u32) -> u32 {\n")?;
-            wtr.write_all(b"        match state {\n")?;
+            wtr.write_all(b"    fn error_goto_state(aa_state: u32) -> u32 {\n")?;
+            wtr.write_all(b"        match aa_state {\n")?;
             for parser_state in self.parser_states.iter() {
                 if let Some(goto_state_id) = parser_state.error_goto_state_ident() {
                     wtr.write_fmt(format_args!(
@@ -618,7 +618,9 @@ impl Grammar {
                     ))?;
                 }
             }
-            wtr.write_all(b"            _ => panic!(\"No error go to state for {}\", state),\n")?;
+            wtr.write_all(
+                b"            _ => panic!(\"No error go to state for {}\", aa_state),\n",
+            )?;
             wtr.write_all(b"        }\n")?;
             wtr.write_all(b"    }\n\n")?;
         }
@@ -626,9 +628,9 @@ impl Grammar {
     }
 
     fn write_look_ahead_set_code<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
-        wtr.write_all(b"    fn look_ahead_set(state: u32) -> OrderedSet<AATerminal> {\n")?;
+        wtr.write_all(b"    fn look_ahead_set(aa_state: u32) -> OrderedSet<AATerminal> {\n")?;
         wtr.write_all(b"        use AATerminal::*;\n")?;
-        wtr.write_all(b"        match state {\n")?;
+        wtr.write_all(b"        match aa_state {\n")?;
         for parser_state in self.parser_states.iter() {
             wtr.write_fmt(format_args!(
                 "            {} => {},\n",
@@ -636,7 +638,7 @@ impl Grammar {
                 parser_state.look_ahead_set().formated_as_macro_call()
             ))?;
         }
-        wtr.write_all(b"            _ => panic!(\"illegal state: {state}\"),\n")?;
+        wtr.write_all(b"            _ => panic!(\"illegal state: {aa_state}\"),\n")?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    }\n\n")?;
         Ok(())
@@ -662,13 +664,15 @@ impl Grammar {
     }
 
     fn write_goto_table_code<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
-        wtr.write_all(b"    fn goto_state(lhs: &AANonTerminal, current_state: u32) -> u32 {\n")?;
-        wtr.write_all(b"        match current_state {\n")?;
+        wtr.write_all(
+            b"    fn goto_state(aa_lhs: &AANonTerminal, aa_current_state: u32) -> u32 {\n",
+        )?;
+        wtr.write_all(b"        match aa_current_state {\n")?;
         for parser_state in self.parser_states.iter() {
             parser_state.write_goto_table_code(wtr, "            ")?;
         }
         wtr.write_all(
-            b"            _ => panic!(\"Malformed goto table: ({lhs}, {current_state})\"),\n",
+            b"            _ => panic!(\"Malformed goto table: ({aa_lhs}, {aa_current_state})\"),\n",
         )?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    }\n\n")?;
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 8536e07..3b6d90c 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -319,7 +319,11 @@ impl ParserState {
         indent: &str,
     ) -> std::io::Result<()> {
         if !self.0.goto_table.borrow().is_empty() {
-            wtr.write_fmt(format_args!("{}{} => match lhs {{\n", indent, self.ident()))?;
+            wtr.write_fmt(format_args!(
+                "{}{} => match aa_lhs {{\n",
+                indent,
+                self.ident()
+            ))?;
             for (non_terminal, state) in self.0.goto_table.borrow().iter() {
                 wtr.write_fmt(format_args!(
                     "{}    AANonTerminal::{} => {},\n",
@@ -329,7 +333,7 @@ impl ParserState {
                 ))?;
             }
             wtr.write_fmt(format_args!(
-                "{indent}    _ => panic!(\"Malformed goto table: ({{lhs}}, {{current_state}})\"),\n"
+                "{indent}    _ => panic!(\"Malformed goto table: ({{aa_lhs}}, {{aa_current_state}})\"),\n"
             ))?;
             wtr.write_fmt(format_args!("{indent}}},\n"))?;
         };
-- 
2.43.0


From 19e1d4ea732b8ae632c363df0f363c272df69e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:54 +0000
Subject: [PATCH 19/25] fix: %inject always failed in a file with more text

The injection was made while the "." was still the look ahead token so the "."
ended up behind the injected text.
---
 alalr1_lib/src/parser.alaps | 14 +++++++++-----
 alalr1_lib/src/parser.rs    |  8 +++++++-
 lalr1_lib/src/parser.laps   | 14 +++++++++-----
 lalr1_lib/src/parser.rs     |  8 +++++++-
 4 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index 3ec4fee..a937983 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -57,7 +57,15 @@ OptionalInjection: !{ // no injection so nothing to do !} | Injection .
 
 InjectionHead: "%inject" Literal
         !{
-            let (text, location) = $2.text_and_location();
+            $$ = $2.clone();
+        !}
+    .
+
+// NB injected text is read before the current "look ahead" token so the injection has to
+// wait until the "." has been read (otherwise the "." would end up after the injected text).
+Injection: InjectionHead "."
+        !{
+            let (text, location) = $1.text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
@@ -75,10 +83,6 @@ InjectionHead: "%inject" Literal
         !}
     .
 
-// NB This (including the split) is needed to allow for "look ahead" mechanism.
-// It ensures injection occurs before any meaningful tokens are read
-Injection: InjectionHead "." .
-
 // Preamble
 Preamble:
         !{
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index feb5776..36c1da5 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -1315,7 +1315,13 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
             4 => {
                 // InjectionHead: "%inject" Literal #(Right, 1)
                 
-            let (text, location) = aa_rhs[1].text_and_location();
+            aa_lhs = aa_rhs[1].clone();
+        
+            }
+            5 => {
+                // Injection: InjectionHead "." #(NonAssoc, 0)
+                
+            let (text, location) = aa_rhs[0].text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index caea3a8..4426d6a 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -58,7 +58,15 @@ OptionalInjection: !{ // no injection so nothing to do !} | Injection .
 
 InjectionHead: "%inject" Literal
         !{
-            let (text, location) = $2.text_and_location();
+            $$ = $2.clone();
+        !}
+    .
+
+// NB injected text is read before the current "look ahead" token so the injection has to
+// wait until the "." has been read (otherwise the "." would end up after the injected text).
+Injection: InjectionHead "."
+        !{
+            let (text, location) = $1.text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
@@ -79,10 +87,6 @@ InjectionHead: "%inject" Literal
         !}
     .
 
-// NB This (including the split) is needed to allow for "look ahead" mechanism.
-// It ensures injection occurs before any meaningful tokens are read
-Injection: InjectionHead "." .
-
 // Preamble
 Preamble:
         !{
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index 4044831..e2ca1fb 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -1231,7 +1231,13 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
             4 => {
                 // InjectionHead: "%inject" Literal #(Right, 1)
                 
-            let (text, location) = aa_rhs[1].text_and_location();
+            aa_lhs = aa_rhs[1].clone();
+        
+            }
+            5 => {
+                // Injection: InjectionHead "." #(NonAssoc, 0)
+                
+            let (text, location) = aa_rhs[0].text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
-- 
2.43.0


From 41ec9231af58073811ca79979201fde0c0119116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:41 +0000
Subject: [PATCH 20/25] fix: complete the items of a state when a look-ahead
 set is empty

With a non terminal that derives no text the items of a state depended on the
look-aheads it was first reached with and merging others panicked.
---
 alalr1_lib/src/grammar.rs         | 36 +++++++++++++++----------------
 alalr1_lib/src/symbol/terminal.rs |  4 ++--
 lalr1_lib/src/grammar.rs          | 36 +++++++++++++++----------------
 lalr1_lib/src/symbol/terminal.rs  |  4 ++--
 4 files changed, 38 insertions(+), 42 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 3ccc940..e87223f 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -129,25 +129,23 @@ impl Specification {
                         Symbol::Terminal(_) => debug_assert!(!item_key.is_closable()),
                         Symbol::NonTerminal(prospective_lhs) => {
                             debug_assert!(item_key.is_closable());
-                            for look_ahead_symbol in look_ahead_set.iter() {
-                                let firsts = TokenSet::first_all_caps(
-                                    item_key.rhs_tail(),
-                                    look_ahead_symbol,
-                                );
-                                for production in self
-                                    .productions
-                                    .iter()
-                                    .filter(|x| x.left_hand_side() == prospective_lhs)
-                                {
-                                    let prospective_key = GrammarItemKey::from(production);
-                                    if let Some(set) = closure_set.get_mut(&prospective_key) {
-                                        let len = set.len();
-                                        *set |= &firsts;
-                                        additions_made = additions_made || set.len() > len;
-                                    } else {
-                                        closure_set.insert(prospective_key, firsts.clone());
-                                        additions_made = true;
-                                    }
+                            // NB an empty look ahead set is no reason to leave out items: the items of a
+                            // state have to be the same whatever look aheads it is reached with.
+                            let firsts =
+                                TokenSet::first_all_caps(item_key.rhs_tail(), &look_ahead_set);
+                            for production in self
+                                .productions
+                                .iter()
+                                .filter(|x| x.left_hand_side() == prospective_lhs)
+                            {
+                                let prospective_key = GrammarItemKey::from(production);
+                                if let Some(set) = closure_set.get_mut(&prospective_key) {
+                                    let len = set.len();
+                                    *set |= &firsts;
+                                    additions_made = additions_made || set.len() > len;
+                                } else {
+                                    closure_set.insert(prospective_key, firsts.clone());
+                                    additions_made = true;
                                 }
                             }
                         }
diff --git a/alalr1_lib/src/symbol/terminal.rs b/alalr1_lib/src/symbol/terminal.rs
index 58a37d4..bb5f601 100644
--- a/alalr1_lib/src/symbol/terminal.rs
+++ b/alalr1_lib/src/symbol/terminal.rs
@@ -201,7 +201,7 @@ impl TokenSet {
         self.0.len()
     }
 
-    pub fn first_all_caps(symbol_string: &[Symbol], token: &Token) -> Self {
+    pub fn first_all_caps(symbol_string: &[Symbol], look_ahead_set: &TokenSet) -> Self {
         let mut token_set = TokenSet::new();
         for symbol in symbol_string.iter() {
             match symbol {
@@ -218,7 +218,7 @@ impl TokenSet {
                 }
             }
         }
-        token_set.insert(token);
+        token_set |= look_ahead_set;
         token_set
     }
 
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 5c4c437..7ed5a07 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -125,25 +125,23 @@ impl Specification {
                         Symbol::Terminal(_) => debug_assert!(!item_key.is_closable()),
                         Symbol::NonTerminal(prospective_lhs) => {
                             debug_assert!(item_key.is_closable());
-                            for look_ahead_symbol in look_ahead_set.iter() {
-                                let firsts = TokenSet::first_all_caps(
-                                    item_key.rhs_tail(),
-                                    look_ahead_symbol,
-                                );
-                                for production in self
-                                    .productions
-                                    .iter()
-                                    .filter(|x| x.left_hand_side() == prospective_lhs)
-                                {
-                                    let prospective_key = GrammarItemKey::from(production);
-                                    if let Some(set) = closure_set.get_mut(&prospective_key) {
-                                        let len = set.len();
-                                        *set |= &firsts;
-                                        additions_made = additions_made || set.len() > len;
-                                    } else {
-                                        closure_set.insert(prospective_key, firsts.clone());
-                                        additions_made = true;
-                                    }
+                            // NB an empty look ahead set is no reason to leave out items: the items of a
+                            // state have to be the same whatever look aheads it is reached with.
+                            let firsts =
+                                TokenSet::first_all_caps(item_key.rhs_tail(), &look_ahead_set);
+                            for production in self
+                                .productions
+                                .iter()
+                                .filter(|x| x.left_hand_side() == prospective_lhs)
+                            {
+                                let prospective_key = GrammarItemKey::from(production);
+                                if let Some(set) = closure_set.get_mut(&prospective_key) {
+                                    let len = set.len();
+                                    *set |= &firsts;
+                                    additions_made = additions_made || set.len() > len;
+                                } else {
+                                    closure_set.insert(prospective_key, firsts.clone());
+                                    additions_made = true;
                                 }
                             }
                         }
diff --git a/lalr1_lib/src/symbol/terminal.rs b/lalr1_lib/src/symbol/terminal.rs
index 5047aec..1a3e4f2 100644
--- a/lalr1_lib/src/symbol/terminal.rs
+++ b/lalr1_lib/src/symbol/terminal.rs
@@ -201,7 +201,7 @@ impl TokenSet {
         self.0.len()
     }
 
-    pub fn first_all_caps(symbol_string: &[Symbol], token: &Token) -> Self {
+    pub fn first_all_caps(symbol_string: &[Symbol], look_ahead_set: &TokenSet) -> Self {
         let mut token_set = TokenSet::new();
         for symbol in symbol_string.iter() {
             match symbol {
@@ -218,7 +218,7 @@ impl TokenSet {
                 }
             }
         }
-        token_set.insert(token);
+        token_set |= look_ahead_set;
         token_set
     }
 
-- 
2.43.0


From ad27476f4dac4eddc6b40b376427540aa692ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:46 +0000
Subject: [PATCH 21/25] fix: references to symbols a production does not have
 panicked the generator

$0 in an action or $n beyond the right hand side (in a comment, say) is left as it
is so that the compiler can point at it.
---
 alalr1_lib/src/production.rs | 16 +++++++++++-----
 lalr1_lib/src/production.rs  |  6 +++++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index f096b4d..a4cd26b 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -152,10 +152,12 @@ impl Production {
             let rhs_len = self.0.tail.0.right_hand_side.len();
             let string = RHS_CRE
                 .replace_all(predicate, |caps: &regex::Captures| {
-                    format!(
-                        "aa_attributes.at_len_minus_n({})",
-                        rhs_len + 1 - usize::from_str(&caps[1]).unwrap()
-                    )
+                    match usize::from_str(&caps[1]) {
+                        Ok(n) if n <= rhs_len => {
+                            format!("aa_attributes.at_len_minus_n({})", rhs_len + 1 - n)
+                        }
+                        _ => caps[0].to_string(), // there is no such symbol
+                    }
                 })
                 .to_string();
             let string = string.replace("$?", "aa_tag");
@@ -168,11 +170,15 @@ impl Production {
     pub fn expanded_action(&self) -> Option<String> {
         // TODO: move action expansion to RHS creation
         if let Some(action) = &self.0.tail.0.action {
+            let rhs_len = self.0.tail.0.right_hand_side.len();
             let string = action.replace("$$", "aa_lhs");
             let string = string.replace("$INJECT", "aa_inject");
             let string = RHS_CRE
                 .replace_all(&string, |caps: &regex::Captures| {
-                    format!("aa_rhs[{}]", usize::from_str(&caps[1]).unwrap() - 1)
+                    match usize::from_str(&caps[1]) {
+                        Ok(n) if n > 0 && n <= rhs_len => format!("aa_rhs[{}]", n - 1),
+                        _ => caps[0].to_string(), // there is no such symbol
+                    }
                 })
                 .to_string();
             Some(string)
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index 53d290d..932b19c 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -142,11 +142,15 @@ impl Production {
     pub fn expanded_action(&self) -> Option<String> {
         // TODO: move action expansion to RHS creation
         if let Some(action) = &self.0.tail.0.action {
+            let rhs_len = self.0.tail.0.right_hand_side.len();
             let string = action.replace("$$", "aa_lhs");
             let string = string.replace("$INJECT", "aa_inject");
             let string = RHS_CRE
                 .replace_all(&string, |caps: &regex::Captures| {
-                    format!("aa_rhs[{}]", usize::from_str(&caps[1]).unwrap() - 1)
+                    match usize::from_str(&caps[1]) {
+                        Ok(n) if n > 0 && n <= rhs_len => format!("aa_rhs[{}]", n - 1),
+                        _ => caps[0].to_string(), // there is no such symbol
+                    }
                 })
                 .to_string();
             Some(string)
-- 
2.43.0


From cd76fdf54fb5b5956f1c091bf6f52d5bef940f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 22/25] fix: the description of states overwrote files without
 being forced to

An existing .states file was overwritten without --force, and with a .states file as
output the description replaced the parser.
---
 alalr1_gen/src/main.rs | 14 ++++++++++----
 lalr1_gen/src/main.rs  | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index 1f8df60..0e539c9 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -16,7 +16,7 @@ fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
     if let Some(dir) = path.parent() {
         new_path.push(dir);
     };
-    new_path.push(path.file_stem().unwrap());
+    new_path.push(path.file_stem().unwrap_or_default());
     new_path.set_extension(new_extension);
     new_path
 }
@@ -52,13 +52,20 @@ fn main() {
     } else {
         with_changed_extension(&cl_options.specification, "rs")
     };
-    if output_path.exists() && !cl_options.force {
+    let description_file = with_changed_extension(&output_path, "states");
+    if description_file == output_path {
         eprintln!(
-            "{}: output file already exists",
+            "{}: output file would be overwritten by the description of its states",
             output_path.to_string_lossy()
         );
         std::process::exit(1);
     }
+    for path in [&output_path, &description_file] {
+        if path.exists() && !cl_options.force {
+            eprintln!("{}: output file already exists", path.to_string_lossy());
+            std::process::exit(1);
+        }
+    }
     let mut file = match fs::File::open(&cl_options.specification) {
         Ok(file) => file,
         Err(error) => {
@@ -122,7 +129,6 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = with_changed_extension(&output_path, "states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index 11a1d2b..3fb118b 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -17,7 +17,7 @@ fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
     if let Some(dir) = path.parent() {
         new_path.push(dir);
     };
-    new_path.push(path.file_stem().unwrap());
+    new_path.push(path.file_stem().unwrap_or_default());
     new_path.set_extension(new_extension);
     new_path
 }
@@ -53,13 +53,20 @@ fn main() {
     } else {
         with_changed_extension(&cl_options.specification, "rs")
     };
-    if output_path.exists() && !cl_options.force {
+    let description_file = with_changed_extension(&output_path, "states");
+    if description_file == output_path {
         eprintln!(
-            "{}: output file already exists",
+            "{}: output file would be overwritten by the description of its states",
             output_path.to_string_lossy()
         );
         std::process::exit(1);
     }
+    for path in [&output_path, &description_file] {
+        if path.exists() && !cl_options.force {
+            eprintln!("{}: output file already exists", path.to_string_lossy());
+            std::process::exit(1);
+        }
+    }
     let mut file = match fs::File::open(&cl_options.specification) {
         Ok(file) => file,
         Err(error) => {
@@ -123,7 +130,6 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = with_changed_extension(&output_path, "states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
-- 
2.43.0


From 7fb82557df4c7cd3d0013c85749dc9200f86438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 23/25] fix: only the last extension of a path is replaced

a.v1.laps was turned into a.rs and a.states, as was a.v2.laps.
---
 alalr1_gen/src/main.rs | 8 +-------
 lalr1_gen/src/main.rs  | 8 +-------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index 0e539c9..d18c803 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -12,13 +12,7 @@ use std::{
 use alalr1_lib::grammar;
 
 fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
-    let mut new_path = PathBuf::new();
-    if let Some(dir) = path.parent() {
-        new_path.push(dir);
-    };
-    new_path.push(path.file_stem().unwrap_or_default());
-    new_path.set_extension(new_extension);
-    new_path
+    path.with_extension(new_extension)
 }
 
 #[derive(Debug, StructOpt)]
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index 3fb118b..25ff161 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -13,13 +13,7 @@ use std::{
 use lalr1_lib::grammar;
 
 fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
-    let mut new_path = PathBuf::new();
-    if let Some(dir) = path.parent() {
-        new_path.push(dir);
-    };
-    new_path.push(path.file_stem().unwrap_or_default());
-    new_path.set_extension(new_extension);
-    new_path
+    path.with_extension(new_extension)
 }
 
 #[derive(Debug, StructOpt)]
-- 
2.43.0


From 0ea4c2c6dbc3a6a15cd3bd21b604483656cd456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 24/25] fix: reported errors ran together on one line of
 standard error

---
 alalr1/src/lib.rs | 2 +-
 lalr1/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 76a9575..f60693d 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -27,7 +27,7 @@ pub trait ReportError<T: Ord + Copy + Debug + Display + Eq> {
             panic!("Fatal Error: {message}!!");
         };
         std::io::stderr()
-            .write_all(message.as_bytes())
+            .write_all(format!("{message}\n").as_bytes())
             .expect("Nowhere to go here!!!");
     }
 }
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index c1fe984..c4971dd 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -85,7 +85,7 @@ pub trait ReportError<T: Ord + Copy + Debug + Display + Eq> {
             panic!("Fatal Error: {message}!!");
         };
         std::io::stderr()
-            .write_all(message.as_bytes())
+            .write_all(format!("{message}\n").as_bytes())
             .expect("Nowhere to go here!!!");
     }
 }
-- 
2.43.0


From 6790450b330e4c1896ed484cea2944ff6bd72559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 25/25] fix: end each shift/reduce conflict in the automaton
 report with a newline

---
 alalr1_lib/src/state.rs | 2 +-
 lalr1_lib/src/state.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 38bd468..96dc720 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -437,7 +437,7 @@ impl ParserState {
                 string += &format!("    {shift_token}:\n");
                 string += &format!("      shift -> State<{}>\n", goto_state.ident());
                 string += &format!(
-                    "      reduce {}: {}",
+                    "      reduce {}: {}\n",
                     reducible_item.production(),
                     look_ahead_set
                 );
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 3b6d90c..bddd804 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -402,7 +402,7 @@ impl ParserState {
                 string += &format!("    {shift_token}:\n");
                 string += &format!("      shift -> State<{}>\n", goto_state.ident());
                 string += &format!(
-                    "      reduce {}: {}",
+                    "      reduce {}: {}\n",
                     reducible_item.production(),
                     look_ahead_set
                 );
-- 
2.43.0

