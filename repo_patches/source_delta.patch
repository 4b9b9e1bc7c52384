From 9c9bd794dc9bcf8a98f4f3cbdb4b07c5a6725308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 01/28] fix: keep the expectations of every alternative when a
 choice fails

A tuple choice (and so or, choice!) forgot the expectations of the
alternatives that failed on their first parser as soon as another
alternative was a sequence that had already got past an optional parser.
---
 src/parser/choice.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index ad976a7..c6e174e 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -151,16 +151,16 @@ macro_rules! do_choice {
         // more parsers returned `PeekOk` before the parser finally failed with
         // `PeekErr`. Since we lose the offsets of the nested parsers when we merge
         // the errors we must first extract the errors before we do the merge.
-        // If the offset == 0 on the other hand (which should be the common case) then
-        // we can delay the addition of the error since we know for certain that only
-        // the first parser in the sequence were tried
-        $(
-            if $error.offset != ErrorOffset(1) {
+        // If the offset == 1 for every parser on the other hand (which should be the common
+        // case) then we can delay the addition of the error since we know for certain that only
+        // the first parser in each sequence were tried
+        if $( $error.offset != ErrorOffset(1) )||+ {
+            $(
                 error.offset = $error.offset;
                 $parser.add_error(&mut error);
-                error.offset = ErrorOffset(0);
-            }
-        )+
+            )+
+            error.offset = ErrorOffset(0);
+        }
         PeekErr(error)
     } };
     (
-- 
2.43.0


From dfe8e62f2b84b18e149d26ae44948e49ba30e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 02/28] fix: do not overflow when counting the parsers of
 nested sequences

A sequence nested around 256 or more parsers panicked (debug) or
miscounted the error offset (release).
---
 src/parser/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 8e0ecc9..2e8505f 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -244,7 +244,7 @@ macro_rules! tuple_parser {
             #[inline]
             fn parser_count(&self) -> ErrorOffset {
                 let (ref $h, $(ref $id),*) = *self;
-                ErrorOffset($h.parser_count().0 $( + $id.parser_count().0)*)
+                ErrorOffset($h.parser_count().0 $( .saturating_add($id.parser_count().0))*)
             }
 
             #[inline]
-- 
2.43.0


From 4e9367cb21942ad6b35a6e76cd6ddd5e0821fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 03/28] fix: fail when the operand after a chainr1 operator is
 missing

---
 src/parser/repeat.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 27543c3..d2caa23 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1084,10 +1084,10 @@ where
         let (mut l, mut committed) = ctry!(self.0.parse_lazy(input));
         loop {
             let before = input.checkpoint();
-            let op = match self.1.parse_lazy(input).into() {
+            let (op, op_committed) = match self.1.parse_lazy(input).into() {
                 Ok((x, rest)) => {
                     committed = committed.merge(rest);
-                    x
+                    (x, rest)
                 }
                 Err(Commit::Commit(err)) => return CommitErr(err.error),
                 Err(Commit::Peek(_)) => {
@@ -1102,8 +1102,16 @@ where
                     committed = committed.merge(rest);
                 }
                 Err(Commit::Commit(err)) => return CommitErr(err.error),
-                Err(Commit::Peek(_)) => {
+                Err(Commit::Peek(mut err)) => {
                     ctry!(input.reset(before).committed());
+                    if let Commit::Commit(()) = op_committed {
+                        // The operator took input so its operand is not optional
+                        if let Ok(t) = input.uncons() {
+                            err.error.add(StreamError::unexpected_token(t));
+                        }
+                        self.0.add_error(&mut err);
+                        return CommitErr(err.error);
+                    }
                     break;
                 }
             }
-- 
2.43.0


From 5170f1a5ddc022acb37be0d9a6f6e02e1508d07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 04/28] fix: make take_until and repeat_until fail committed
 once they have taken input

A failure after input had been taken was reported as uncommitted, also across
chunks of a partial stream, and an end parser interrupted by the end of a chunk
saw the input before the boundary again when it was resumed.
---
 src/parser/repeat.rs | 152 +++++++++++++++++++++++++++++++++----------
 1 file changed, 116 insertions(+), 36 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index d2caa23..042911f 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1147,6 +1147,63 @@ where
     Chainr1(parser, op)
 }
 
+/// The state of a parser which is only used to find out if the input ahead matches
+#[derive(Default)]
+pub struct EndState<S> {
+    /// How many of the next tokens the parser has already seen
+    seen: usize,
+    state: S,
+}
+
+/// Parses `end` without consuming any input. If a partial `input` runs out while doing so then
+/// `end` continues from where it was after `seen` tokens, the next time this is called.
+fn parse_end<M, Input, P>(
+    end: &mut P,
+    mode: M,
+    input: &mut Input,
+    end_state: &mut EndState<P::PartialState>,
+) -> ParseResult<(), Input::Error>
+where
+    M: ParseMode,
+    Input: Stream,
+    P: Parser<Input>,
+{
+    fn remaining<Input: Stream>(input: &mut Input) -> usize {
+        let mut n = 0;
+        while input.uncons().is_ok() {
+            n += 1;
+        }
+        n
+    }
+
+    let EndState { seen, state } = end_state;
+
+    let before = input.checkpoint();
+    if mode.is_first() {
+        *seen = 0;
+    }
+    for _ in 0..*seen {
+        if let Err(err) = input.uncons() {
+            let err = Input::Error::from_error(input.position(), err);
+            ctry!(input.reset(before).committed());
+            return CommitErr(err);
+        }
+    }
+    *seen = 0;
+
+    let result = end.parse_mode(mode, input, state);
+    match result {
+        CommitErr(ref err) if input.is_partial() && err.is_unexpected_end_of_input() => {
+            let unseen = remaining(input);
+            ctry!(input.reset(before.clone()).committed());
+            *seen = remaining(input) - unseen;
+        }
+        _ => *state = Default::default(),
+    }
+    ctry!(input.reset(before).committed());
+    result.map(|_| ())
+}
+
 #[derive(Copy, Clone)]
 pub struct TakeUntil<F, P> {
     end: P,
@@ -1159,41 +1216,44 @@ where
     P: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (F, bool, EndState<P::PartialState>);
 
     parse_mode!(Input);
     #[inline]
     fn parse_mode_impl<M>(
         &mut self,
-        mode: M,
+        mut mode: M,
         input: &mut Input,
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, Input::Error>
     where
         M: ParseMode,
     {
-        let (ref mut output, ref mut end_state) = *state;
+        let (output, committed, end_state) = state;
+
+        if mode.is_first() {
+            *output = F::default();
+            *committed = false;
+        }
 
-        let mut committed = Commit::Peek(());
         loop {
-            let before = input.checkpoint();
-            match self.end.parse_mode(mode, input, end_state).into() {
-                Ok((_, rest)) => {
-                    ctry!(input.reset(before).committed());
-                    return match committed.merge(rest) {
-                        Commit::Commit(()) => CommitOk(mem::take(output)),
-                        Commit::Peek(()) => PeekOk(mem::take(output)),
+            match parse_end(&mut self.end, mode, input, end_state).into() {
+                Ok(((), rest)) => {
+                    return if mem::take(committed) || !rest.is_peek() {
+                        CommitOk(mem::take(output))
+                    } else {
+                        PeekOk(mem::take(output))
                     };
                 }
                 Err(Commit::Peek(_)) => {
-                    ctry!(input.reset(before).committed());
-                    output.extend(Some(ctry!(uncons(input)).0));
-                    committed = Commit::Commit(());
-                }
-                Err(Commit::Commit(e)) => {
-                    ctry!(input.reset(before).committed());
-                    return CommitErr(e.error);
+                    mode.set_first();
+                    match uncons(input) {
+                        PeekErr(err) if *committed => return CommitErr(err.error),
+                        result => output.extend(Some(ctry!(result).0)),
+                    }
+                    *committed = true;
                 }
+                Err(Commit::Commit(e)) => return CommitErr(e.error),
             };
         }
     }
@@ -1283,7 +1343,7 @@ where
     E: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, bool, P::PartialState, E::PartialState);
+    type PartialState = (F, bool, bool, P::PartialState, EndState<E::PartialState>);
 
     parse_mode!(Input);
     #[inline]
@@ -1296,34 +1356,54 @@ where
     where
         M: ParseMode,
     {
-        let (output, is_parse, parse_state, end_state) = state;
+        let (output, committed, is_parse, parse_state, end_state) = state;
+
+        if mode.is_first() {
+            *output = F::default();
+            *committed = false;
+            *is_parse = false;
+        }
 
-        let mut committed = Commit::Peek(());
         loop {
             if *is_parse {
-                let (token, c) = ctry!(self.parser.parse_mode(mode, input, parse_state));
-                output.extend(Some(token));
-                committed = committed.merge(c);
-                *is_parse = false;
-            } else {
                 let before = input.checkpoint();
-                match self.end.parse_mode(mode, input, end_state).into() {
-                    Ok((_, rest)) => {
+                match self.parser.parse_mode(mode, input, parse_state).into() {
+                    Ok((token, c)) => {
+                        output.extend(Some(token));
+                        *committed |= !c.is_peek();
+                        mode.set_first();
+                        *is_parse = false;
+                    }
+                    Err(Commit::Peek(mut err)) => {
+                        if !*committed {
+                            return PeekErr(err);
+                        }
                         ctry!(input.reset(before).committed());
-                        return match committed.merge(rest) {
-                            Commit::Commit(()) => CommitOk(mem::take(output)),
-                            Commit::Peek(()) => PeekOk(mem::take(output)),
+                        if let Ok(t) = input.uncons() {
+                            err.error.add(StreamError::unexpected_token(t));
+                        }
+                        self.parser.add_error(&mut err);
+                        return CommitErr(err.error);
+                    }
+                    Err(Commit::Commit(err)) => {
+                        *committed = true;
+                        return CommitErr(err.error);
+                    }
+                }
+            } else {
+                match parse_end(&mut self.end, mode, input, end_state).into() {
+                    Ok(((), rest)) => {
+                        return if mem::take(committed) || !rest.is_peek() {
+                            CommitOk(mem::take(output))
+                        } else {
+                            PeekOk(mem::take(output))
                         };
                     }
                     Err(Commit::Peek(_)) => {
-                        ctry!(input.reset(before).committed());
                         mode.set_first();
                         *is_parse = true;
                     }
-                    Err(Commit::Commit(e)) => {
-                        ctry!(input.reset(before).committed());
-                        return CommitErr(e.error);
-                    }
+                    Err(Commit::Commit(e)) => return CommitErr(e.error),
                 }
             }
         }
-- 
2.43.0


From 1a831b1ea2afd91d3cf2fd960fdf3f0fc7eb0cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 05/28] fix: look for the escape of escaped where the inner
 parser started

and treat an escape as input that was taken
---
 src/parser/repeat.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 042911f..93bb56c 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1482,13 +1482,14 @@ where
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<Self::Output, Input::Error> {
         let mut committed = Commit::Peek(());
         loop {
+            let checkpoint = input.checkpoint();
             match self.parser.parse_lazy(input) {
                 PeekOk(_) => {}
                 CommitOk(_) => {
                     committed = Commit::Commit(());
                 }
                 PeekErr(_) => {
-                    let checkpoint = input.checkpoint();
+                    ctry!(input.reset(checkpoint.clone()).committed());
                     match uncons(input) {
                         CommitOk(ref c) | PeekOk(ref c) if *c == self.escape => {
                             match self.escape_parser.parse_committed_mode(
@@ -1496,8 +1497,7 @@ where
                                 input,
                                 &mut Default::default(),
                             ) {
-                                PeekOk(_) => {}
-                                CommitOk(_) => {
+                                PeekOk(_) | CommitOk(_) => {
                                     committed = Commit::Commit(());
                                 }
                                 CommitErr(err) => return CommitErr(err),
-- 
2.43.0


From f7b9b953327f98d2da0fbf1f279a8d83fedb8f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 06/28] fix: start iterate from scratch on the first call

parse_first kept the items and the committed flag of an earlier, failed run
---
 src/parser/repeat.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 93bb56c..ebc6159 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1608,6 +1608,10 @@ where
         M: ParseMode,
     {
         let (opt_iter, committed, buf, next) = state;
+        if mode.is_first() {
+            *committed = false;
+            *buf = F::default();
+        }
         let (iter, next_item) = match opt_iter {
             Some(iter) if !mode.is_first() => iter,
             _ => {
-- 
2.43.0


From 1c556508f0dbeec74928eb4ba4f52ede427d7052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 07/28] fix: do not ask for more input when a range would end
 inside a character

On a partial stream of text such a failure was reported as committed, unlike on
a complete one, and take_until_range failed instead of asking for more input.
take_fn counted from the wrong place when it was resumed inside a character.
---
 src/parser/range.rs | 15 +++++++++++----
 src/stream/mod.rs   |  4 +++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index 46353eb..efa4fba 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -480,7 +480,8 @@ where
                     // fail as only one `:` is present at this parse attempt. But when we later resume
                     // with more input we must start parsing again at the first time we errored so we
                     // can see the entire `::`
-                    if first_stream_error.is_none() {
+                    // (A range which would end inside a character can't match here even with more input)
+                    if first_stream_error.is_none() && first_error.is_unexpected_end_of_input() {
                         first_stream_error = Some((first_error, input.distance(&before)));
                     }
 
@@ -488,8 +489,11 @@ where
                     ctry!(input.reset(look_ahead_input).committed());
 
                     // See if we can advance anyway
-                    if input.uncons().is_err() {
-                        let (first_error, first_error_distance) = first_stream_error.unwrap();
+                    if let Err(last_error) = input.uncons() {
+                        let (first_error, first_error_distance) = match first_stream_error {
+                            Some(first) => first,
+                            None => (last_error, input.distance(&before)),
+                        };
 
                         // Reset the stream
                         ctry!(input.reset(before).committed());
@@ -579,7 +583,10 @@ where
         if mode.is_first() {
             *offset = 0;
         } else {
-            let _ = input.uncons_range(*offset);
+            // Search everything again if the offset is not between two tokens
+            if input.uncons_range(*offset).is_err() {
+                *offset = 0;
+            }
         }
 
         match (self.searcher)(input.range()).into() {
diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index a395612..e475c5b 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -250,8 +250,10 @@ pub fn wrap_stream_error<T, Input>(
 where
     Input: ?Sized + StreamOnce + Positioned,
 {
+    // More input only helps if there was too little of it
+    let needs_more = input.is_partial() && err.is_unexpected_end_of_input();
     let err = Input::Error::from_error(input.position(), err);
-    if input.is_partial() {
+    if needs_more {
         CommitErr(err)
     } else {
         PeekErr(err.into())
-- 
2.43.0


From b2e6f4f9af75c24d72a43c58971579af52f62f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 08/28] fix: ask for more input at the end of a chunk in eof

---
 src/parser/token.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/token.rs b/src/parser/token.rs
index fe41421..27e0be7 100644
--- a/src/parser/token.rs
+++ b/src/parser/token.rs
@@ -7,7 +7,7 @@ use crate::{
         ResultExt, StreamError, Tracked,
     },
     lib::marker::PhantomData,
-    stream::{uncons, Stream, StreamOnce},
+    stream::{uncons, wrap_stream_error, Stream, StreamOnce},
     Parser,
 };
 
@@ -660,7 +660,14 @@ where
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<(), Input::Error> {
         let before = input.checkpoint();
         match input.uncons() {
-            Err(ref err) if err.is_unexpected_end_of_input() => PeekOk(()),
+            Err(err) if err.is_unexpected_end_of_input() => {
+                if input.is_partial() {
+                    // There may be more input
+                    wrap_stream_error(input, err)
+                } else {
+                    PeekOk(())
+                }
+            }
             _ => {
                 ctry!(input.reset(before).committed());
                 PeekErr(<Input as StreamOnce>::Error::empty(input.position()).into())
-- 
2.43.0


From f1c7fa3614d4dba522ae1a629829198916a30c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 09/28] fix: remember that a partially parsed sequence has
 committed

---
 src/parser/sequence.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 2e8505f..a91d644 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -94,6 +94,7 @@ macro_rules! tuple_parser {
             )*
             #[allow(dead_code)]
             offset: u8,
+            first_empty_parser: usize,
             _marker: PhantomData <( $h, $( $id),* )>,
         }
 
@@ -164,10 +165,24 @@ macro_rules! tuple_parser {
                 MODE: ParseMode,
             {
                 let (ref mut $h, $(ref mut $id),*) = *self;
-                let mut first_empty_parser = 0;
                 #[allow(unused_mut)]
                 let mut current_parser = 0;
 
+                macro_rules! reset_state {
+                    () => {
+                        state.$h.value = None;
+                        $( state.$id.value = None; )*
+                        state.first_empty_parser = 0;
+                    }
+                }
+
+                if mode.is_first() {
+                    // An earlier parse which failed may have left some values behind
+                    reset_state!();
+                }
+                // If we resume a partial parse then the earlier parsers may have committed already
+                let mut first_empty_parser = state.first_empty_parser;
+
                 #[allow(unused_macros)]
                 macro_rules! add_errors {
                     ($err: ident, $offset: expr) => {
@@ -183,7 +198,10 @@ macro_rules! tuple_parser {
                             first_empty_parser = current_parser + 1;
                             x
                         }
-                        PeekErr(err) => return PeekErr(err),
+                        PeekErr(err) => {
+                            reset_state!();
+                            return PeekErr(err);
+                        }
                         CommitErr(err) => return CommitErr(err),
                         PeekOk(x) => {
                             x
@@ -199,8 +217,8 @@ macro_rules! tuple_parser {
                 }
 
                 $(
+                    current_parser += 1;
                     if mode.is_first() || state.$id.value.is_none() {
-                        current_parser += 1;
                         let before = input.checkpoint();
                         let temp = match $id.parse_mode(mode, input, &mut state.$id.state) {
                             CommitOk(x) => {
@@ -208,6 +226,7 @@ macro_rules! tuple_parser {
                                 x
                             }
                             PeekErr(err) => {
+                                reset_state!();
                                 if let Err(err) = input.reset(before) {
                                     return if first_empty_parser != 0 {
                                         CommitErr(err.into())
@@ -217,7 +236,10 @@ macro_rules! tuple_parser {
                                 }
                                 return add_errors!(err, state.offset)
                             }
-                            CommitErr(err) => return CommitErr(err),
+                            CommitErr(err) => {
+                                state.first_empty_parser = first_empty_parser;
+                                return CommitErr(err);
+                            }
                             PeekOk(x) => {
                                 x
                             }
@@ -234,6 +256,7 @@ macro_rules! tuple_parser {
 
                 // SAFETY: requires both $h and $id to be set, see previous SAFETY comments
                 let value = unsafe { (state.$h.unwrap_value(), $(state.$id.unwrap_value()),*) };
+                state.first_empty_parser = 0;
                 if first_empty_parser != 0 {
                     CommitOk(value)
                 } else {
-- 
2.43.0


From 096cc8891f644ff11a0214db6f84c72933931e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 10/28] fix: retry every alternative of a slice choice which
 could not start before the input ran out

---
 src/parser/choice.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index c6e174e..20e15f1 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -257,6 +257,7 @@ macro_rules! tuple_choice_parser_inner {
                     _ => false,
                 };
                 if mode.is_first() || empty {
+                    *state = self::$partial_state::Peek;
                     let before_position = input.position();
                     let before = input.checkpoint();
                     do_choice!(input before_position before $partial_state state ( $($id)+ ) )
@@ -271,7 +272,7 @@ macro_rules! tuple_choice_parser_inner {
                                     }
                                     _ => unreachable!()
                                 };
-                                if result.is_ok() {
+                                if !matches!(result, CommitErr(_)) {
                                     *state = self::$partial_state::Peek;
                                 }
                                 result
@@ -399,20 +400,27 @@ where
 
     let (ref mut index_state, ref mut child_state) = *state;
     if !mode.is_first() && *index_state != 0 {
-        return self_[*index_state - 1]
-            .parse_partial(input, child_state)
-            .map(|x| {
-                *index_state = 0;
-                x
-            });
+        let result = self_[*index_state - 1].parse_partial(input, child_state);
+        if !matches!(result, CommitErr(_)) {
+            *index_state = 0;
+        }
+        return result;
     }
+    *index_state = 0;
 
+    let before_position = input.position();
     for i in 0..self_.len() {
         ctry!(input.reset(before.clone()).committed());
 
-        match self_[i].parse_mode(mode, input, child_state) {
+        // Each parser must start in its own, fresh state
+        *child_state = Default::default();
+        match self_[i].parse_mode(crate::parser::FirstMode, input, child_state) {
             committed_err @ CommitErr(_) => {
-                *index_state = i + 1;
+                // If the input is the same this is a partial parse we cannot commit to so all the
+                // parsers must be retried on the next call
+                if input.position() != before_position {
+                    *index_state = i + 1;
+                }
                 return committed_err;
             }
             PeekErr(err) => {
-- 
2.43.0


From 139b078b57b388564279ea962f6fd98b110c8587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 11/28] fix: keep the input of attempt and not_followed_by
 until they are decided

---
 src/parser/combinator.rs | 77 ++++++++++++++++++++++++++++++++++++++--
 src/parser/repeat.rs     | 52 +++++----------------------
 2 files changed, 82 insertions(+), 47 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 97bae9a..51016ff 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -44,7 +44,16 @@ where
         ctry!(input.reset(checkpoint).committed());
         match result {
             CommitOk(_) | PeekOk(_) => PeekErr(Input::Error::empty(input.position()).into()),
-            CommitErr(_) | PeekErr(_) => PeekOk(()),
+            CommitErr(err) => {
+                *state = Default::default();
+                if input.is_partial() && err.is_unexpected_end_of_input() {
+                    // Whether the parser succeeds depends on the input that is still to come
+                    CommitErr(err)
+                } else {
+                    PeekOk(())
+                }
+            }
+            PeekErr(_) => PeekOk(()),
         }
     }
 
@@ -82,6 +91,65 @@ where
     NotFollowedBy(parser)
 }
 
+/// The state of a parser which does not give up any of its input until it has finished
+#[derive(Default)]
+pub struct UncommittedState<S> {
+    /// How many of the next tokens the parser has already seen
+    seen: usize,
+    state: S,
+}
+
+/// Runs `parse`. If a partial `input` runs out while doing so then `input` is left where it was,
+/// since `parse` may still turn out to fail, and `parse` continues from where it was after `seen`
+/// tokens the next time this is called.
+pub(crate) fn parse_uncommitted<M, Input, S, O>(
+    mode: M,
+    input: &mut Input,
+    state: &mut UncommittedState<S>,
+    parse: impl FnOnce(M, &mut Input, &mut S) -> ParseResult<O, Input::Error>,
+) -> ParseResult<O, Input::Error>
+where
+    M: ParseMode,
+    Input: Stream,
+    S: Default,
+{
+    fn remaining<Input: Stream>(input: &mut Input) -> usize {
+        let mut n = 0;
+        while input.uncons().is_ok() {
+            n += 1;
+        }
+        n
+    }
+
+    let UncommittedState { seen, state } = state;
+
+    let before = input.checkpoint();
+    if mode.is_first() {
+        *seen = 0;
+    }
+    for _ in 0..*seen {
+        if let Err(err) = input.uncons() {
+            let err = Input::Error::from_error(input.position(), err);
+            ctry!(input.reset(before).committed());
+            return CommitErr(err);
+        }
+    }
+    *seen = 0;
+
+    let result = parse(mode, input, state);
+    if let CommitErr(ref err) = result {
+        if input.is_partial() && err.is_unexpected_end_of_input() {
+            let unseen = remaining(input);
+            ctry!(input.reset(before.clone()).committed());
+            *seen = remaining(input) - unseen;
+            ctry!(input.reset(before).committed());
+        } else {
+            *state = S::default();
+        }
+    }
+    result
+}
+
 /*
  * TODO :: Rename `Try` to `Attempt`
  * Because this is public, it's name cannot be changed without also making a breaking change.
@@ -94,7 +162,7 @@ where
     P: Parser<Input, Output = O>,
 {
     type Output = O;
-    type PartialState = P::PartialState;
+    type PartialState = UncommittedState<P::PartialState>;
 
     #[inline]
     fn parse_stream(&mut self, input: &mut Input) -> ParseResult<O, <Input as StreamOnce>::Error> {
@@ -125,7 +193,10 @@ where
     where
         M: ParseMode,
     {
-        match self.0.parse_committed_mode(mode, input, state) {
+        let result = parse_uncommitted(mode, input, state, |mode, input, state| {
+            self.0.parse_committed_mode(mode, input, state)
+        });
+        match result {
             v @ CommitOk(_) | v @ PeekOk(_) | v @ PeekErr(_) => v,
             CommitErr(err) => {
                 if input.is_partial() && err.is_unexpected_end_of_input() {
diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index ebc6159..7a87c2a 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -9,7 +9,7 @@ use crate::{
     lib::{borrow::BorrowMut, cmp, marker::PhantomData, mem},
     parser::{
         choice::{optional, Optional, Or},
-        combinator::{ignore, Ignore},
+        combinator::{ignore, parse_uncommitted, Ignore, UncommittedState},
         function::{parser, FnParser},
         sequence::With,
         token::{value, Value},
@@ -1147,59 +1147,23 @@ where
     Chainr1(parser, op)
 }
 
-/// The state of a parser which is only used to find out if the input ahead matches
-#[derive(Default)]
-pub struct EndState<S> {
-    /// How many of the next tokens the parser has already seen
-    seen: usize,
-    state: S,
-}
-
 /// Parses `end` without consuming any input. If a partial `input` runs out while doing so then
-/// `end` continues from where it was after `seen` tokens, the next time this is called.
+/// `end` continues from where it was, the next time this is called.
 fn parse_end<M, Input, P>(
     end: &mut P,
     mode: M,
     input: &mut Input,
-    end_state: &mut EndState<P::PartialState>,
+    end_state: &mut UncommittedState<P::PartialState>,
 ) -> ParseResult<(), Input::Error>
 where
     M: ParseMode,
     Input: Stream,
     P: Parser<Input>,
 {
-    fn remaining<Input: Stream>(input: &mut Input) -> usize {
-        let mut n = 0;
-        while input.uncons().is_ok() {
-            n += 1;
-        }
-        n
-    }
-
-    let EndState { seen, state } = end_state;
-
     let before = input.checkpoint();
-    if mode.is_first() {
-        *seen = 0;
-    }
-    for _ in 0..*seen {
-        if let Err(err) = input.uncons() {
-            let err = Input::Error::from_error(input.position(), err);
-            ctry!(input.reset(before).committed());
-            return CommitErr(err);
-        }
-    }
-    *seen = 0;
-
-    let result = end.parse_mode(mode, input, state);
-    match result {
-        CommitErr(ref err) if input.is_partial() && err.is_unexpected_end_of_input() => {
-            let unseen = remaining(input);
-            ctry!(input.reset(before.clone()).committed());
-            *seen = remaining(input) - unseen;
-        }
-        _ => *state = Default::default(),
-    }
+    let result = parse_uncommitted(mode, input, end_state, |mode, input, state| {
+        end.parse_mode(mode, input, state)
+    });
     ctry!(input.reset(before).committed());
     result.map(|_| ())
 }
@@ -1216,7 +1180,7 @@ where
     P: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, bool, EndState<P::PartialState>);
+    type PartialState = (F, bool, UncommittedState<P::PartialState>);
 
     parse_mode!(Input);
     #[inline]
@@ -1343,7 +1307,7 @@ where
     E: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, bool, bool, P::PartialState, EndState<E::PartialState>);
+    type PartialState = (F, bool, bool, P::PartialState, UncommittedState<E::PartialState>);
 
     parse_mode!(Input);
     #[inline]
-- 
2.43.0


From f16d11a5b0be921ee7e455db898d98dd194d2d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 12/28] fix: start parsers without a partial state over when
 the input runs out

---
 src/lib.rs               |  7 +++---
 src/parser/combinator.rs | 19 ++++++++++++++++
 src/parser/repeat.rs     | 48 ++++++++++++++++++++++++++++++----------
 3 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 04faeda..5fbd79b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -402,10 +402,9 @@ macro_rules! parser {
 #[macro_export]
 macro_rules! combine_parse_partial {
     ((()) $mode:ident $input:ident $state:ident $parser:block) => {{
-        let _ = $state;
-        let mut state = Default::default();
-        let state = &mut state;
-        $parser.parse_mode($mode, $input, state)
+        // Without a state to resume from the parser must start over from where it started
+        let _ = ($mode, $state);
+        $parser.parse_lazy($input)
     }};
     (($ignored:ty) $mode:ident $input:ident $state:ident $parser:block) => {
         $parser.parse_mode($mode, $input, $state)
diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 51016ff..022f48b 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -99,6 +99,25 @@ pub struct UncommittedState<S> {
     state: S,
 }
 
+/// Runs `parse`, which has no state to resume from. If a partial `input` runs out while doing so
+/// then `input` is left where it was so that `parse` starts over the next time this is called.
+pub(crate) fn parse_restartable<Input, O>(
+    input: &mut Input,
+    parse: impl FnOnce(&mut Input) -> ParseResult<O, Input::Error>,
+) -> ParseResult<O, Input::Error>
+where
+    Input: Stream,
+{
+    let before = input.checkpoint();
+    let result = parse(input);
+    if let CommitErr(ref err) = result {
+        if input.is_partial() && err.is_unexpected_end_of_input() {
+            ctry!(input.reset(before).committed());
+        }
+    }
+    result
+}
+
 /// Runs `parse`. If a partial `input` runs out while doing so then `input` is left where it was,
 /// since `parse` may still turn out to fail, and `parse` continues from where it was after `seen`
 /// tokens the next time this is called.
diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 7a87c2a..99b387f 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -9,7 +9,7 @@ use crate::{
     lib::{borrow::BorrowMut, cmp, marker::PhantomData, mem},
     parser::{
         choice::{optional, Optional, Or},
-        combinator::{ignore, parse_uncommitted, Ignore, UncommittedState},
+        combinator::{ignore, parse_restartable, parse_uncommitted, Ignore, UncommittedState},
         function::{parser, FnParser},
         sequence::With,
         token::{value, Value},
@@ -1080,6 +1080,21 @@ where
     type PartialState = ();
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<P::Output, Input::Error> {
+        parse_restartable(input, |input| self.parse_chain(input))
+    }
+    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
+        self.0.add_error(errors)
+    }
+}
+
+impl<P, Op> Chainr1<P, Op> {
+    fn parse_chain<Input>(&mut self, input: &mut Input) -> ParseResult<P::Output, Input::Error>
+    where
+        Input: Stream,
+        P: Parser<Input>,
+        Op: Parser<Input>,
+        Op::Output: FnOnce(P::Output, P::Output) -> P::Output,
+    {
         // FIXME FastResult
         let (mut l, mut committed) = ctry!(self.0.parse_lazy(input));
         loop {
@@ -1118,9 +1133,6 @@ where
         }
         Ok((l, committed)).into()
     }
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.0.add_error(errors)
-    }
 }
 
 /// Parses `p` one or more times separated by `op`. The value returned is the one produced by the
@@ -1444,6 +1456,26 @@ where
     type PartialState = EscapedState<P::PartialState, Q::PartialState>;
 
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<Self::Output, Input::Error> {
+        parse_restartable(input, |input| self.parse_escaped(input))
+    }
+
+    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
+        use crate::error;
+
+        self.parser.add_error(errors);
+
+        errors.error.add_expected(error::Token(self.escape.clone()));
+    }
+}
+
+impl<P, Q, I> Escaped<P, Q, I> {
+    fn parse_escaped<Input>(&mut self, input: &mut Input) -> ParseResult<(), Input::Error>
+    where
+        Input: Stream<Token = I>,
+        P: Parser<Input>,
+        I: PartialEq,
+        Q: Parser<Input>,
+    {
         let mut committed = Commit::Peek(());
         loop {
             let checkpoint = input.checkpoint();
@@ -1487,14 +1519,6 @@ where
             }
         }
     }
-
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        use crate::error;
-
-        self.parser.add_error(errors);
-
-        errors.error.add_expected(error::Token(self.escape.clone()));
-    }
 }
 
 /// Parses an escaped string by first applying `parser` which accept the normal characters which do
-- 
2.43.0


From 175faee5082c6b861eba3104ebeba8382625cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 13/28] fix: keep track of what many, many1 and count_min_max
 have parsed between chunks

---
 src/parser/repeat.rs | 54 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 99b387f..c392336 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -123,7 +123,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (usize, F, P::PartialState);
+    type PartialState = (bool, usize, F, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -136,27 +136,44 @@ where
     where
         M: ParseMode,
     {
-        let (count, elements, child_state) = state;
+        let (committed, count, elements, child_state) = state;
+
+        if mode.is_first() {
+            *committed = false;
+            *count = 0;
+            *elements = F::default();
+        }
 
         let mut iter = self.parser.by_ref().partial_iter(mode, input, child_state);
+        iter.committed = *committed;
         let remaining_min = self.min.saturating_sub(*count);
         let remaining_max = self.max - *count;
         elements.extend(suggest_size_hint(
             iter.by_ref().take(remaining_max).inspect(|_| *count += 1),
             (remaining_min, Some(remaining_max)),
         ));
-        if *count < self.min {
+        *committed = iter.committed;
+        let result = if *count < self.min {
             let err = StreamError::message_format(format_args!(
                 "expected {} more elements",
                 self.min - *count
             ));
             iter.fail(err)
         } else {
-            iter.into_result_fast(elements).map(|x| {
+            iter.into_result_fast(elements)
+        };
+        match result {
+            CommitErr(_) => (),
+            PeekErr(_) => {
                 *count = 0;
-                x
-            })
+                *elements = F::default();
+            }
+            CommitOk(_) | PeekOk(_) => {
+                *committed = false;
+                *count = 0;
+            }
         }
+        result
     }
 
     fn add_error(&mut self, error: &mut Tracked<<Input as StreamOnce>::Error>) {
@@ -384,7 +401,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (bool, F, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -398,11 +415,22 @@ where
         M: ParseMode,
     {
         // TODO
-        let (ref mut elements, ref mut child_state) = *state;
+        let (ref mut committed, ref mut elements, ref mut child_state) = *state;
+
+        if mode.is_first() {
+            *committed = false;
+            *elements = F::default();
+        }
 
         let mut iter = (&mut self.0).partial_iter(mode, input, child_state);
+        iter.committed = *committed;
         elements.extend(iter.by_ref());
-        iter.into_result_fast(elements)
+        *committed = iter.committed;
+
+        iter.into_result_fast(elements).map(|x| {
+            *committed = false;
+            x
+        })
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
@@ -472,9 +500,12 @@ where
         let (ref mut parsed_one, ref mut committed_state, ref mut elements, ref mut child_state) =
             *state;
 
-        if mode.is_first() || !*parsed_one {
-            debug_assert!(!*parsed_one);
+        if mode.is_first() {
+            *parsed_one = false;
+            *elements = F::default();
+        }
 
+        if !*parsed_one {
             let (first, committed) = ctry!(self.0.parse_mode(mode, input, child_state));
             elements.extend(Some(first));
             // TODO Should PeekOk be an error?
@@ -492,6 +523,7 @@ where
             mode,
         };
         elements.extend(iter.by_ref());
+        *committed_state = iter.committed;
 
         iter.into_result_fast(elements).map(|x| {
             *parsed_one = false;
-- 
2.43.0


From 3f82ff722938065a3d769435dbf7b933763c7c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 14/28] fix: keep track of what sep_by, sep_end_by and chainl1
 have parsed between chunks

---
 src/parser/repeat.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index c392336..4424d36 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -740,7 +740,7 @@ where
     #[inline]
     fn parse_mode_impl<M>(
         &mut self,
-        mode: M,
+        mut mode: M,
         input: &mut Input,
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, Input::Error>
@@ -749,6 +749,11 @@ where
     {
         let (ref mut parsed_one, ref mut elements, ref mut child_state) = *state;
 
+        if mode.is_first() {
+            *parsed_one = None;
+            *elements = F::default();
+        }
+
         let rest = match *parsed_one {
             Some(rest) => rest,
             None => {
@@ -756,7 +761,9 @@ where
                     ctry!(self
                         .parser
                         .parse_mode(mode, input, &mut child_state.B.state));
+                *parsed_one = Some(rest);
                 elements.extend(Some(first));
+                mode.set_first();
                 rest
             }
         };
@@ -767,6 +774,10 @@ where
 
             elements.extend(iter.by_ref());
 
+            if iter.committed {
+                *parsed_one = Some(Commit::Commit(()));
+            }
+
             iter.into_result_fast(elements).map(|x| {
                 *parsed_one = None;
                 x
@@ -922,7 +933,7 @@ where
     #[inline]
     fn parse_mode_impl<M>(
         &mut self,
-        mode: M,
+        mut mode: M,
         input: &mut Input,
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, Input::Error>
@@ -931,6 +942,11 @@ where
     {
         let (ref mut parsed_one, ref mut elements, ref mut child_state) = *state;
 
+        if mode.is_first() {
+            *parsed_one = None;
+            *elements = F::default();
+        }
+
         let rest = match *parsed_one {
             Some(rest) => rest,
             None => {
@@ -940,6 +956,7 @@ where
                         .parse_mode(mode, input, &mut child_state.B.state));
                 *parsed_one = Some(rest);
                 elements.extend(Some(first));
+                mode.set_first();
                 rest
             }
         };
@@ -1037,10 +1054,14 @@ where
     {
         let (ref mut l_state, ref mut child_state) = *state;
 
+        if mode.is_first() {
+            *l_state = None;
+        }
+
         let (mut l, mut committed) = match l_state.take() {
             Some(x) => x,
             None => {
-                let x = ctry!(self.0.parse_partial(input, &mut child_state.B.state));
+                let x = ctry!(self.0.parse_mode(mode, input, &mut child_state.B.state));
                 mode.set_first();
                 x
             }
-- 
2.43.0


From 6af76c73d6a7d228bd471c28cf6db111d5dd6d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 15/28] fix: leave repeat_until and iterate without state when
 they did not parse anything

---
 src/parser/repeat.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 4424d36..47a235b 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1405,6 +1405,8 @@ where
                     }
                     Err(Commit::Peek(mut err)) => {
                         if !*committed {
+                            *output = F::default();
+                            *is_parse = false;
                             return PeekErr(err);
                         }
                         ctry!(input.reset(before).committed());
@@ -1414,10 +1416,7 @@ where
                         self.parser.add_error(&mut err);
                         return CommitErr(err.error);
                     }
-                    Err(Commit::Commit(err)) => {
-                        *committed = true;
-                        return CommitErr(err.error);
-                    }
+                    Err(Commit::Commit(err)) => return CommitErr(err.error),
                 }
             } else {
                 match parse_end(&mut self.end, mode, input, end_state).into() {
@@ -1711,7 +1710,12 @@ where
         })();
 
         if let Err((item, err)) = result {
-            *next_item = Some(item);
+            if let PeekErr(_) = err {
+                opt_iter.take();
+                *buf = F::default();
+            } else {
+                *next_item = Some(item);
+            }
             return err;
         }
 
-- 
2.43.0


From 73203197fa6a28717f772408c1221d67996e4048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 16/28] fix: report a take_fn search which fails after a resume
 as committed

---
 src/parser/range.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index efa4fba..17f64bf 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -11,7 +11,7 @@ use crate::{
         ParseResult::{self, *},
         ResultExt, StreamError, Tracked,
     },
-    lib::{convert::TryFrom, marker::PhantomData},
+    lib::{convert::TryFrom, marker::PhantomData, mem},
     parser::ParseMode,
 };
 
@@ -599,7 +599,7 @@ where
                 result
             }
             TakeRange::NotFound(next_offset) => {
-                *offset = next_offset;
+                let skipped = mem::replace(offset, next_offset);
 
                 let range = input.range();
                 let _ = input.uncons_range(range.len());
@@ -607,7 +607,7 @@ where
                 ctry!(input.reset(checkpoint).committed());
 
                 let err = Input::Error::from_error(position, StreamError::end_of_input());
-                if !input.is_partial() && range.is_empty() {
+                if !input.is_partial() && skipped == 0 && range.is_empty() {
                     PeekErr(err.into())
                 } else {
                     CommitErr(err)
-- 
2.43.0


From e57023ae19417cb83b599e48d74dc6edc34b1b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 17/28] fix: start tokens over when the input runs out

---
 src/parser/token.rs | 131 +++++++++++++++++++++++---------------------
 1 file changed, 68 insertions(+), 63 deletions(-)

diff --git a/src/parser/token.rs b/src/parser/token.rs
index 27e0be7..1711b10 100644
--- a/src/parser/token.rs
+++ b/src/parser/token.rs
@@ -7,6 +7,7 @@ use crate::{
         ResultExt, StreamError, Tracked,
     },
     lib::marker::PhantomData,
+    parser::combinator::parse_restartable,
     stream::{uncons, wrap_stream_error, Stream, StreamOnce},
     Parser,
 };
@@ -238,44 +239,46 @@ where
     type PartialState = ();
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<T, Input::Error> {
-        let start = input.position();
-        let mut committed = false;
-        for c in self.tokens.clone() {
-            match crate::stream::uncons(input) {
-                CommitOk(other) | PeekOk(other) => {
-                    if !(self.cmp)(c, other.clone()) {
+        parse_restartable(input, |input| {
+            let start = input.position();
+            let mut committed = false;
+            for c in self.tokens.clone() {
+                match crate::stream::uncons(input) {
+                    CommitOk(other) | PeekOk(other) => {
+                        if !(self.cmp)(c, other.clone()) {
+                            return if committed {
+                                let mut errors = <Input as StreamOnce>::Error::from_error(
+                                    start,
+                                    StreamError::unexpected_token(other),
+                                );
+                                errors.add_expected(&self.expected);
+                                CommitErr(errors)
+                            } else {
+                                PeekErr(<Input as StreamOnce>::Error::empty(start).into())
+                            };
+                        }
+                        committed = true;
+                    }
+                    PeekErr(mut error) => {
+                        error.error.set_position(start);
                         return if committed {
-                            let mut errors = <Input as StreamOnce>::Error::from_error(
-                                start,
-                                StreamError::unexpected_token(other),
-                            );
-                            errors.add_expected(&self.expected);
-                            CommitErr(errors)
+                            CommitErr(error.error)
                         } else {
-                            PeekErr(<Input as StreamOnce>::Error::empty(start).into())
+                            PeekErr(error)
                         };
                     }
-                    committed = true;
-                }
-                PeekErr(mut error) => {
-                    error.error.set_position(start);
-                    return if committed {
-                        CommitErr(error.error)
-                    } else {
-                        PeekErr(error)
-                    };
-                }
-                CommitErr(mut error) => {
-                    error.set_position(start);
-                    return CommitErr(error);
+                    CommitErr(mut error) => {
+                        error.set_position(start);
+                        return CommitErr(error);
+                    }
                 }
             }
-        }
-        if committed {
-            CommitOk(self.tokens.clone())
-        } else {
-            PeekOk(self.tokens.clone())
-        }
+            if committed {
+                CommitOk(self.tokens.clone())
+            } else {
+                PeekOk(self.tokens.clone())
+            }
+        })
     }
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
         errors.error.add_expected(&self.expected);
@@ -342,43 +345,45 @@ where
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<T, Input::Error> {
-        let start = input.position();
-        let mut committed = false;
-        for c in self.tokens.clone() {
-            match crate::stream::uncons(input) {
-                CommitOk(other) | PeekOk(other) => {
-                    if !(self.cmp)(c, other.clone()) {
+        parse_restartable(input, |input| {
+            let start = input.position();
+            let mut committed = false;
+            for c in self.tokens.clone() {
+                match crate::stream::uncons(input) {
+                    CommitOk(other) | PeekOk(other) => {
+                        if !(self.cmp)(c, other.clone()) {
+                            return if committed {
+                                let errors = <Input as StreamOnce>::Error::from_error(
+                                    start,
+                                    StreamError::unexpected_token(other),
+                                );
+                                CommitErr(errors)
+                            } else {
+                                PeekErr(<Input as StreamOnce>::Error::empty(start).into())
+                            };
+                        }
+                        committed = true;
+                    }
+                    PeekErr(mut error) => {
+                        error.error.set_position(start);
                         return if committed {
-                            let errors = <Input as StreamOnce>::Error::from_error(
-                                start,
-                                StreamError::unexpected_token(other),
-                            );
-                            CommitErr(errors)
+                            CommitErr(error.error)
                         } else {
-                            PeekErr(<Input as StreamOnce>::Error::empty(start).into())
+                            PeekErr(error)
                         };
                     }
-                    committed = true;
-                }
-                PeekErr(mut error) => {
-                    error.error.set_position(start);
-                    return if committed {
-                        CommitErr(error.error)
-                    } else {
-                        PeekErr(error)
-                    };
-                }
-                CommitErr(mut error) => {
-                    error.set_position(start);
-                    return CommitErr(error);
+                    CommitErr(mut error) => {
+                        error.set_position(start);
+                        return CommitErr(error);
+                    }
                 }
             }
-        }
-        if committed {
-            CommitOk(self.tokens.clone())
-        } else {
-            PeekOk(self.tokens.clone())
-        }
+            if committed {
+                CommitOk(self.tokens.clone())
+            } else {
+                PeekOk(self.tokens.clone())
+            }
+        })
     }
 }
 
-- 
2.43.0


From ed7f41aec67a71c31fd25d123a4b7732d07dccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 18/28] fix: let decode! use a bufferless decoder

---
 src/stream/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream/decoder.rs b/src/stream/decoder.rs
index ad034f8..07ca2a4 100644
--- a/src/stream/decoder.rs
+++ b/src/stream/decoder.rs
@@ -139,12 +139,12 @@ where
     C: ,
 {
     #[doc(hidden)]
-    pub fn __before_parse<R>(&mut self, mut reader: R) -> io::Result<()>
+    pub fn __before_parse<R>(&mut self, reader: &mut R) -> io::Result<()>
     where
         R: Read,
         C: crate::stream::buf_reader::CombineSyncRead<R>,
     {
-        if self.buffer.extend_buf_sync(&mut reader)? == 0 {
+        if self.buffer.extend_buf_sync(reader)? == 0 {
             self.end_of_input = true;
         }
 
-- 
2.43.0


From cdbd03e44445cb59368fb2dda54871f949b4805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 19/28] fix: let decode_futures_03! use a bufferless decoder
 and its three-argument form

---
 src/stream/decoder.rs | 1 -
 src/stream/mod.rs     | 5 ++---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/stream/decoder.rs b/src/stream/decoder.rs
index 07ca2a4..c073985 100644
--- a/src/stream/decoder.rs
+++ b/src/stream/decoder.rs
@@ -214,7 +214,6 @@ impl<S, P, C> Decoder<S, P, C> {
     #[doc(hidden)]
     pub async fn __before_parse_async<R>(&mut self, reader: Pin<&mut R>) -> io::Result<()>
     where
-        R: futures_io_03::AsyncRead,
         C: crate::stream::buf_reader::CombineAsyncRead<R>,
     {
         let copied = self.buffer.extend_buf(reader).await?;
diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index e475c5b..562f506 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -1506,11 +1506,10 @@ macro_rules! decode {
 #[cfg_attr(docsrs, doc(cfg(feature = "futures-io-03")))]
 #[macro_export]
 macro_rules! decode_futures_03 {
-    ($decoder: expr, $read: expr, $parser: expr) => {
-        $crate::decode_futures_03!($decoder, $read, $parser, |x| x $(,)?)
+    ($decoder: expr, $read: expr, $parser: expr $(,)?) => {
+        $crate::decode_futures_03!($decoder, $read, $parser, |input, _position| input)
     };
 
-
     ($decoder: expr, $read: expr, $parser: expr, $input_stream: expr $(,)?) => {
         $crate::decode_futures_03!($decoder, $read, $parser, $input_stream, |x| x)
     };
-- 
2.43.0


From 5702c7146f52f4a31952c15b1d53e0bcac65faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 20/28] fix: an expected label or a later error no longer hides
 that the input ended (or that reading failed)

---
 src/error.rs       |  4 ++--
 src/stream/easy.rs |  6 ++++--
 src/stream/read.rs | 10 +++++-----
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 5670b25..3ed01fb 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -685,7 +685,7 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        ParseError::<Item, Range, Position>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
@@ -873,7 +873,7 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        ParseError::<Item, Range, Position>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
diff --git a/src/stream/easy.rs b/src/stream/easy.rs
index 0a54182..0a7904b 100644
--- a/src/stream/easy.rs
+++ b/src/stream/easy.rs
@@ -338,7 +338,9 @@ where
 
     #[inline]
     fn add(&mut self, err: Self::StreamError) {
-        *self = err;
+        if !StreamError::is_unexpected_end_of_input(self) {
+            *self = err;
+        }
     }
 
     #[inline]
@@ -347,7 +349,7 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        crate::error::ParseError::<Item, Range, Position>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
diff --git a/src/stream/read.rs b/src/stream/read.rs
index 6fa13b0..b8428f5 100644
--- a/src/stream/read.rs
+++ b/src/stream/read.rs
@@ -126,10 +126,10 @@ where
 
     #[inline]
     fn add(&mut self, err: Self::StreamError) {
-        *self = match (&*self, err) {
-            (Error::EndOfInput, _) => Error::EndOfInput,
-            (_, err) => err,
-        };
+        match self {
+            Error::EndOfInput | Error::Io(_) => (),
+            Error::Unexpected => *self = err,
+        }
     }
 
     #[inline]
@@ -138,7 +138,7 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        ParseError::<Item, Range, Position>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
-- 
2.43.0


From f96bbc19cbe9763c71f89689f72dc54c2b6b0ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 21/28] fix: converting an easy error to another error type
 keeps messages as messages and the end of input as such

---
 src/stream/easy.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/stream/easy.rs b/src/stream/easy.rs
index 0a7904b..48fe986 100644
--- a/src/stream/easy.rs
+++ b/src/stream/easy.rs
@@ -193,6 +193,8 @@ impl<R> From<u8> for Info<u8, R> {
     }
 }
 
+const END_OF_INPUT: &str = "end of input";
+
 /// Enum used to store information about an error that has occurred during parsing.
 #[derive(Debug)]
 pub enum Error<T, R> {
@@ -292,7 +294,9 @@ where
             Error::Unexpected(info) => match info {
                 Info::Token(x) => T::unexpected_token(x),
                 Info::Range(x) => T::unexpected_range(x),
+                Info::Static(END_OF_INPUT) => T::end_of_input(),
                 Info::Static(x) => T::unexpected_static_message(x),
+                Info::Owned(ref x) if x == END_OF_INPUT => T::end_of_input(),
                 Info::Owned(x) => T::unexpected_format(x),
             },
             Error::Expected(info) => match info {
@@ -302,10 +306,10 @@ where
                 Info::Owned(x) => T::expected_format(x),
             },
             Error::Message(info) => match info {
-                Info::Token(x) => T::expected_token(x),
-                Info::Range(x) => T::expected_range(x),
-                Info::Static(x) => T::expected_static_message(x),
-                Info::Owned(x) => T::expected_format(x),
+                Info::Token(x) => T::message_token(x),
+                Info::Range(x) => T::message_range(x),
+                Info::Static(x) => T::message_static_message(x),
+                Info::Owned(x) => T::message_format(x),
             },
             Error::Other(err) => T::message_format(err),
         }
@@ -394,7 +398,9 @@ impl<Item, Range> crate::error::StreamErrorInto<Item, Range> for Error<Item, Ran
             Error::Unexpected(info) => match info {
                 Info::Token(x) => T::unexpected_token(x.into()),
                 Info::Range(x) => T::unexpected_range(x.into()),
+                Info::Static(END_OF_INPUT) => T::end_of_input(),
                 Info::Static(x) => T::unexpected_static_message(x),
+                Info::Owned(ref x) if x == END_OF_INPUT => T::end_of_input(),
                 Info::Owned(x) => T::unexpected_format(x),
             },
             Error::Expected(info) => match info {
@@ -404,10 +410,10 @@ impl<Item, Range> crate::error::StreamErrorInto<Item, Range> for Error<Item, Ran
                 Info::Owned(x) => T::expected_format(x),
             },
             Error::Message(info) => match info {
-                Info::Token(x) => T::expected_token(x.into()),
-                Info::Range(x) => T::expected_range(x.into()),
-                Info::Static(x) => T::expected_static_message(x),
-                Info::Owned(x) => T::expected_format(x),
+                Info::Token(x) => T::message_token(x.into()),
+                Info::Range(x) => T::message_range(x.into()),
+                Info::Static(x) => T::message_static_message(x),
+                Info::Owned(x) => T::message_format(x),
             },
             Error::Other(err) => T::message_format(err),
         }
@@ -553,7 +559,7 @@ where
 impl<T, R> Error<T, R> {
     /// Returns the `end_of_input` error.
     pub fn end_of_input() -> Error<T, R> {
-        Error::Unexpected("end of input".into())
+        Error::Unexpected(END_OF_INPUT.into())
     }
 
     /// Formats a slice of errors in a human readable way.
-- 
2.43.0


From 652fdedd9e0dad30e5b6a48a0db4b9bea6c1a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:58 +0000
Subject: [PATCH 22/28] fix: easy::Errors::into_other dropped all but the last
 error

---
 src/stream/easy.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/stream/easy.rs b/src/stream/easy.rs
index 48fe986..750be83 100644
--- a/src/stream/easy.rs
+++ b/src/stream/easy.rs
@@ -495,14 +495,15 @@ where
     }
 
     #[inline]
-    fn into_other<T>(mut self) -> T
+    fn into_other<T>(self) -> T
     where
         T: crate::error::ParseError<Item, Range, Position>,
     {
-        match self.errors.pop() {
-            Some(err) => T::from_error(self.position, StreamError::into_other(err)),
-            None => T::empty(self.position),
+        let mut error = T::empty(self.position);
+        for err in self.errors {
+            error.add(StreamError::into_other(err));
         }
+        error
     }
 }
 
-- 
2.43.0


From 4e17a9c06606cade4e3d07467c4378a21686d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 23/28] fix: a character boundary error was lost when converted
 to StringStreamError

---
 src/error.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index 3ed01fb..67a0deb 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -810,6 +810,9 @@ impl<Item, Range> StreamError<Item, Range> for StringStreamError {
     fn message_range(_: Range) -> Self {
         StringStreamError::UnexpectedParse
     }
+    fn unexpected_static_message(msg: &'static str) -> Self {
+        StreamError::<Item, Range>::message_static_message(msg)
+    }
     fn message_static_message(msg: &'static str) -> Self {
         if msg == CHAR_BOUNDARY_ERROR_MESSAGE {
             StringStreamError::CharacterBoundary
-- 
2.43.0


From 8692ec04c9e7b2503ddcd1757a58c5ae3be68210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 24/28] fix: functions used as parsers restart from where they
 began when a chunk ends

---
 src/parser/function.rs | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/parser/function.rs b/src/parser/function.rs
index 4d93b4a..da77d6f 100644
--- a/src/parser/function.rs
+++ b/src/parser/function.rs
@@ -1,7 +1,10 @@
 //! Parsers constructor from regular functions
 
 use crate::{
-    error::{ParseResult, StdParseResult},
+    error::{
+        ParseResult::{self, CommitErr},
+        ResultExt, StdParseResult,
+    },
     lib::marker::PhantomData,
     stream::Stream,
     Parser,
@@ -15,7 +18,29 @@ impl<'a, Input: Stream, O> Parser<Input>
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        self(input).into()
+        call(input, self)
+    }
+}
+
+#[inline]
+fn call<Input, O>(
+    input: &mut Input,
+    mut f: impl FnMut(&mut Input) -> StdParseResult<O, Input>,
+) -> ParseResult<O, Input::Error>
+where
+    Input: Stream,
+{
+    if input.is_partial() {
+        // A function has no partial state to resume from so it will be called anew with all of its
+        // input
+        let before = input.checkpoint();
+        let result = f(input).into();
+        if let CommitErr(_) = result {
+            ctry!(input.reset(before).committed());
+        }
+        result
+    } else {
+        f(input).into()
     }
 }
 
@@ -76,7 +101,7 @@ where
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        (self.0)(input).into()
+        call(input, &mut self.0)
     }
 }
 
@@ -89,7 +114,7 @@ where
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        self(input).into()
+        call(input, self)
     }
 }
 
@@ -125,7 +150,8 @@ where
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        (self.parser)(self.env.clone(), input).into()
+        let EnvParser { ref env, parser } = *self;
+        call(input, |input| parser(env.clone(), input))
     }
 }
 
-- 
2.43.0


From 4c64604bf7ab6ef1bebc429602d4f08b22422874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:00 +0000
Subject: [PATCH 25/28] fix: Either and dispatch! say what else could have
 followed like the parser they hold

---
 src/parser/choice.rs     | 16 ++++++++++++++++
 src/parser/combinator.rs | 14 ++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index 20e15f1..2aa81a0 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -781,6 +781,22 @@ macro_rules! dispatch_parser_impl {
                     )*
                 }
             }
+
+            fn add_committed_expected_error(&mut self, error: &mut $crate::error::Tracked<<Input as $crate::StreamOnce>::Error>) {
+                match self {
+                    $(
+                    $parser_name::$id($id) => $id.add_committed_expected_error(error),
+                    )*
+                }
+            }
+
+            fn parser_count(&self) -> $crate::ErrorOffset {
+                match self {
+                    $(
+                    $parser_name::$id($id) => $id.parser_count(),
+                    )*
+                }
+            }
         }
     }
 }
diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 022f48b..faa3db5 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -717,6 +717,20 @@ where
             Either::Right(ref mut x) => x.add_error(error),
         }
     }
+
+    fn add_committed_expected_error(&mut self, error: &mut Tracked<<Input as StreamOnce>::Error>) {
+        match *self {
+            Either::Left(ref mut x) => x.add_committed_expected_error(error),
+            Either::Right(ref mut x) => x.add_committed_expected_error(error),
+        }
+    }
+
+    fn parser_count(&self) -> crate::ErrorOffset {
+        match *self {
+            Either::Left(ref x) => x.parser_count(),
+            Either::Right(ref x) => x.parser_count(),
+        }
+    }
 }
 
 pub struct NoPartial<P>(P);
-- 
2.43.0


From cce170e16f5a16e9b20139726e61b1d4c20ea7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 26/28] fix: take_while1 and friends say 'unexpected end of
 input' at the end of the input inside a sequence too

---
 src/stream/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index 562f506..efaa5d0 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -351,7 +351,7 @@ where
                 CommitOk(x)
             }
         }
-        PeekErr(_) => {
+        PeekErr(err) => {
             if input.is_partial() && input_at_eof(input) {
                 // Partial inputs which encounter end of file must fail to let more input be
                 // retrieved
@@ -359,6 +359,8 @@ where
                     input.position(),
                     StreamError::end_of_input(),
                 ))
+            } else if err.error.is_unexpected_end_of_input() {
+                PeekErr(Input::Error::from_error(input.position(), err.error).into())
             } else {
                 PeekErr(Input::Error::empty(input.position()).into())
             }
-- 
2.43.0


From e6ce825e23788d300e2978a78d04e7d794631503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:57 +0000
Subject: [PATCH 27/28] fix: iterate says what its parser expected when it
 fails after input was taken

---
 src/parser/repeat.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 47a235b..dc9508a 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1673,13 +1673,17 @@ where
                     *committed = true;
                     Ok(v)
                 }
-                PeekErr(err) => {
+                PeekErr(mut err) => {
                     if let Err(err) = input.reset(before) {
                         return Err((item, CommitErr(err)));
                     }
                     Err((
                         item,
                         if *committed {
+                            if let Ok(t) = input.uncons() {
+                                err.error.add(StreamError::unexpected_token(t));
+                            }
+                            parser.add_error(&mut err);
                             CommitErr(err.error)
                         } else {
                             PeekErr(err)
-- 
2.43.0


From 8e5a4ace3e5d791e74aa67fcf349c73c590ca77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:30 +0000
Subject: [PATCH 28/28] fix: repeat_until and friends say what would have ended
 or continued them

---
 src/parser/repeat.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index dc9508a..a87566d 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1413,7 +1413,7 @@ where
                         if let Ok(t) = input.uncons() {
                             err.error.add(StreamError::unexpected_token(t));
                         }
-                        self.parser.add_error(&mut err);
+                        self.add_error(&mut err);
                         return CommitErr(err.error);
                     }
                     Err(Commit::Commit(err)) => return CommitErr(err.error),
@@ -1436,6 +1436,11 @@ where
             }
         }
     }
+
+    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
+        self.end.add_error(errors);
+        self.parser.add_error(errors);
+    }
 }
 
 pub fn repeat_until<F, Input, P, E>(parser: P, end: E) -> RepeatUntil<F, P, E>
-- 
2.43.0

