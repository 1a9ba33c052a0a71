From 9b67c86cf9e10608930badf737fc39b54c79f6bc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:31 +0000
Subject: [PATCH 01/17] fix: restore the context offset when try_mat or
 try_mat_policy fails

A failed match under a policy (or with before/after constraints) left the
offset behind whatever the policy or the earlier parts had consumed, although
try_mat documents that the offset is unchanged on failure.
---
 src/ctx/policy.rs | 24 +++++++++++++++++-------
 src/ctx/regex.rs  | 14 +++++++++-----
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/ctx/policy.rs b/src/ctx/policy.rs
index 46e18d6..003df47 100644
--- a/src/ctx/policy.rs
+++ b/src/ctx/policy.rs
@@ -155,8 +155,14 @@ where
     where
         Pat: Regex<PolicyCtx<I, R>> + ?Sized,
     {
-        self.regex.try_parse(&mut self.inner)?;
-        pat.try_parse(self)
+        let offset = self.offset();
+
+        self.regex
+            .try_parse(&mut self.inner)
+            .and_then(|_| pat.try_parse(self))
+            .inspect_err(|_| {
+                self.set_offset(offset);
+            })
     }
 }
 
@@ -176,11 +182,15 @@ where
         B: Regex<PolicyCtx<I, R>> + ?Sized,
         A: Regex<PolicyCtx<I, R>> + ?Sized,
     {
-        before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
-
-        after.try_parse(self)?;
-        Ok(ret)
+        let offset = Context::offset(self);
+
+        before
+            .try_parse(self)
+            .and_then(|_| pat.try_parse(self))
+            .and_then(|ret| after.try_parse(self).map(|_| ret))
+            .inspect_err(|_| {
+                self.set_offset(offset);
+            })
     }
 }
 
diff --git a/src/ctx/regex.rs b/src/ctx/regex.rs
index 1340a71..6432557 100644
--- a/src/ctx/regex.rs
+++ b/src/ctx/regex.rs
@@ -459,11 +459,15 @@ where
         B: Regex<RegexCtx<'a, T>> + ?Sized,
         A: Regex<RegexCtx<'a, T>> + ?Sized,
     {
-        before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
-
-        after.try_parse(self)?;
-        Ok(ret)
+        let offset = Context::offset(self);
+
+        before
+            .try_parse(self)
+            .and_then(|_| pat.try_parse(self))
+            .and_then(|ret| after.try_parse(self).map(|_| ret))
+            .inspect_err(|_| {
+                self.set_offset(offset);
+            })
     }
 }
 
-- 
2.43.0


From ed9836d49e3c05d15fa0a24625addd18b0eb0ebd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:31 +0000
Subject: [PATCH 02/17] fix: leave the offset at the end of the longest
 alternative

The longest token match of arrays, slices and vectors left the offset wherever
the last tried alternative stopped, and its value-building side rejected an
empty match its span side accepts. LongestTokenMatch measured the end from its
own offset although a policy may move the begin of the span.
---
 src/ctor.rs         |  4 +++-
 src/ctor/longest.rs | 18 ++++++++++++++----
 src/regex.rs        |  4 ++++
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index 79fa4b4..834a5c5 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -962,12 +962,14 @@ where
 
             // construct value
             if let Ok(val) = t2p(item).construct(ctx, h)
-                && ctx.offset() > end
+                && (ret.is_none() || ctx.offset() > end)
             {
                 end = ctx.offset();
                 ret = Some((val, item));
             }
         }
+        // leave the offset at the end of longest match
+        ctx.set_offset(end);
         ret.map(|v| r2r(v.0, v.1)).ok_or(err)
     }
 }
diff --git a/src/ctor/longest.rs b/src/ctor/longest.rs
index 406d815..a5bb79a 100644
--- a/src/ctor/longest.rs
+++ b/src/ctor/longest.rs
@@ -242,21 +242,31 @@ where
         debug_regex_beg!("LongestTokenMatch", offset);
 
         let l = debug_regex_stage!("LongestTokenMatch", "l", ctx.try_mat(&self.left));
+        let off_l = ctx.offset();
 
         // reset offset
         ctx.set_offset(offset);
 
         let r = debug_regex_stage!("LongestTokenMatch", "r", ctx.try_mat(&self.right));
+        let off_r = ctx.offset();
 
         // pick longer one
         let ret = match (l, r) {
-            (Ok(l), Ok(r)) => Ok(if l.len() >= r.len() { l } else { r }),
-            (Ok(l), Err(_)) => Ok(l),
-            (Err(_), Ok(r)) => Ok(r),
+            (Ok(l), Ok(r)) => Ok(if l.len() >= r.len() {
+                (off_l, l)
+            } else {
+                (off_r, r)
+            }),
+            (Ok(l), Err(_)) => Ok((off_l, l)),
+            (Err(_), Ok(r)) => Ok((off_r, r)),
             (Err(_), Err(r)) => Err(r),
         };
 
-        ctx.set_offset(offset + ret.map(|v| v.len()).unwrap_or_default());
+        // set offset
+        ctx.set_offset(ret.as_ref().map(|v| v.0).unwrap_or(offset));
+
+        let ret = ret.map(|v| v.1);
+
         debug_regex_reval!("LongestTokenMatch", ret)
     }
 }
diff --git a/src/regex.rs b/src/regex.rs
index 14bad7a..a1759fa 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -808,6 +808,7 @@ where
 {
     move |slice: &[T], ctx: &mut C| {
         let beg = ctx.offset();
+        let mut end = beg;
         let mut longest = None;
 
         for item in slice.iter() {
@@ -819,8 +820,11 @@ where
                 && longest.map(|v: Span| v.len() < span.len()).unwrap_or(true)
             {
                 longest = Some(span);
+                end = ctx.offset();
             }
         }
+        // leave the offset at the end of longest match
+        ctx.set_offset(end);
         longest.ok_or(err)
     }
 }
-- 
2.43.0


From fc861951c960e77efb754febdfcc160a020afa55 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:31 +0000
Subject: [PATCH 03/17] fix: stop repeat2 and sep2 at their maximum count

Both looped one element past N: building values indexed out of bounds and
panicked, the span side of repeat2 failed and that of sep2 took N + 1 elements.
---
 src/ctor/repeat2.rs | 4 ++--
 src/ctor/sep.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ctor/repeat2.rs b/src/ctor/repeat2.rs
index 4a6c75f..30915cb 100644
--- a/src/ctor/repeat2.rs
+++ b/src/ctor/repeat2.rs
@@ -165,7 +165,7 @@ where
         let range = M..=N;
 
         crate::debug_ctor_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals[cnt] = Some(val);
                 cnt += 1;
@@ -200,7 +200,7 @@ where
         let range = M..=N;
 
         crate::debug_regex_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 total.add_assign(p_span);
                 cnt += 1;
diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 09cf563..8a469e5 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -789,7 +789,7 @@ where
         let range = M..=N;
 
         debug_ctor_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, func) {
                 let s_span = ctx.try_mat(&self.sep);
 
@@ -832,7 +832,7 @@ where
         let range = M..=N;
 
         debug_regex_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 let s_span = ctx.try_mat(&self.sep);
 
-- 
2.43.0


From e19e8009fd672e3e3be6d90c406b5b16636fe265 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:13 +0000
Subject: [PATCH 04/17] fix: separated lists consume only what is part of their
 result

sep_collect built (and dropped) one more element after a missing separator, and
with skip = false every list consumed the last element it does not return.
---
 src/ctor/sep.rs | 48 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 8a469e5..4493de6 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -505,6 +505,7 @@ mod alloc_sep {
         fn construct(&self, ctx: &mut C, func: &mut H) -> Result<crate::alloc::Vec<O>, Error> {
             let offset: usize = ctx.offset();
             let mut vals = crate::alloc::Vec::with_capacity(self.capacity.max(self.min));
+            let mut end = offset;
             let range: CRange<usize> = (self.min..).into();
 
             debug_ctor_beg!("Separate", range, offset);
@@ -513,11 +514,14 @@ mod alloc_sep {
 
                 if s_span.is_ok() || self.skip {
                     vals.push(val);
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
                 }
             }
+            // leave out the element that is not part of the result
+            ctx.set_offset(end);
             let ret = if vals.len() >= self.min {
                 Ok(vals)
             } else {
@@ -542,6 +546,7 @@ mod alloc_sep {
         fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
             let offset = ctx.offset();
             let mut cnt = 0;
+            let mut end = offset;
             let mut total = Span::new(offset, 0);
             let range: CRange<usize> = (self.min..).into();
 
@@ -555,11 +560,14 @@ mod alloc_sep {
                     if let Ok(sep_ret) = s_span {
                         total.add_assign(sep_ret);
                     }
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
                 }
             }
+            // leave out the element that is not part of the result
+            ctx.set_offset(end);
             let ret = if cnt >= self.min {
                 Ok(total)
             } else {
@@ -786,6 +794,7 @@ where
         let offset: usize = ctx.offset();
         let mut vals = [const { None }; N];
         let mut cnt = 0;
+        let mut end = offset;
         let range = M..=N;
 
         debug_ctor_beg!("Separate2", &range, offset);
@@ -796,6 +805,7 @@ where
                 if s_span.is_ok() || self.skip {
                     vals[cnt] = Some(val);
                     cnt += 1;
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
@@ -804,6 +814,8 @@ where
                 break;
             }
         }
+        // leave out the element that is not part of the result
+        ctx.set_offset(end);
         let ret = if cnt >= M {
             Ok(vals)
         } else {
@@ -828,6 +840,7 @@ where
     fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
         let offset = ctx.offset();
         let mut cnt = 0;
+        let mut end = offset;
         let mut total = Span::new(offset, 0);
         let range = M..=N;
 
@@ -842,6 +855,7 @@ where
                     if let Ok(sep_ret) = s_span {
                         total.add_assign(sep_ret);
                     }
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
@@ -850,6 +864,8 @@ where
                 break;
             }
         }
+        // leave out the element that is not part of the result
+        ctx.set_offset(end);
         let ret = if cnt >= M {
             Ok(total)
         } else {
@@ -1094,30 +1110,36 @@ where
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<V, Error> {
         let offset = ctx.offset();
         let mut cnt = 0;
+        let mut last = offset;
         let mut end = false;
         let range: CRange<usize> = (self.min..).into();
         let ret = {
             debug_ctor_beg!("SepCollect", range, offset);
             V::from_iter(core::iter::from_fn(|| {
+                // nothing follows an element without separator
+                if end {
+                    return None;
+                }
                 self.pat.construct(ctx, func).ok().and_then(|ret| {
                     let s_span = ctx.try_mat(&self.sep);
 
-                    if !end {
-                        if s_span.is_err() {
-                            end = true;
-                        }
-                        // The current value is captured only
-                        // when the current delimiter matches successfully
-                        // or the skip flag is true.
-                        if s_span.is_ok() || self.skip {
-                            cnt += 1;
-                            return Some(ret);
-                        }
+                    if s_span.is_err() {
+                        end = true;
+                    }
+                    // The current value is captured only
+                    // when the current delimiter matches successfully
+                    // or the skip flag is true.
+                    if s_span.is_ok() || self.skip {
+                        cnt += 1;
+                        last = ctx.offset();
+                        return Some(ret);
                     }
                     None
                 })
             }))
         };
+        // leave out the element that is not part of the result
+        ctx.set_offset(last);
         let ret = if cnt >= self.min {
             Ok(ret)
         } else {
@@ -1142,6 +1164,7 @@ where
     fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
         let offset = ctx.offset();
         let mut cnt = 0;
+        let mut end = offset;
         let mut total = Span::new(offset, 0);
         let range: CRange<usize> = (self.min..).into();
 
@@ -1155,11 +1178,14 @@ where
                 if let Ok(sep_ret) = s_span {
                     total.add_assign(sep_ret);
                 }
+                end = ctx.offset();
             }
             if s_span.is_err() {
                 break;
             }
         }
+        // leave out the element that is not part of the result
+        ctx.set_offset(end);
         let ret = if cnt >= self.min {
             Ok(total)
         } else {
-- 
2.43.0


From b48f65be8bcb31230704a42312ff1a45d2ed536d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:31 +0000
Subject: [PATCH 05/17] fix: a failed construct or map leaves the context
 offset unchanged

When a handler or mapper rejected a matched value the offset stayed behind it,
so collect, repeat and repeat2 skipped input that is not in their result and
the MatchExt methods reported an error with the offset advanced.
---
 src/ctor/collect.rs | 14 +++++++++++---
 src/ctor/repeat.rs  |  3 +++
 src/ctor/repeat2.rs |  3 +++
 src/ctx.rs          | 30 +++++++++++++++++++++++++-----
 4 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/ctor/collect.rs b/src/ctor/collect.rs
index 38cf065..1f607a5 100644
--- a/src/ctor/collect.rs
+++ b/src/ctor/collect.rs
@@ -169,9 +169,17 @@ where
         let val = {
             crate::debug_ctor_beg!("Collect", offset);
             V::from_iter(core::iter::from_fn(|| {
-                self.pat.construct(ctx, func).ok().inspect(|_| {
-                    cnt += 1;
-                })
+                let last = ctx.offset();
+
+                self.pat
+                    .construct(ctx, func)
+                    .inspect_err(|_| {
+                        ctx.set_offset(last);
+                    })
+                    .ok()
+                    .inspect(|_| {
+                        cnt += 1;
+                    })
             }))
         };
         let ret = if cnt >= self.min {
diff --git a/src/ctor/repeat.rs b/src/ctor/repeat.rs
index 66f6021..5cef805 100644
--- a/src/ctor/repeat.rs
+++ b/src/ctor/repeat.rs
@@ -218,10 +218,13 @@ where
 
         crate::debug_ctor_beg!("Repeat", self.range, offset);
         while self.is_contain(cnt) {
+            let last = ctx.offset();
+
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals.push(val);
                 cnt += 1;
             } else {
+                ctx.set_offset(last);
                 break;
             }
         }
diff --git a/src/ctor/repeat2.rs b/src/ctor/repeat2.rs
index 30915cb..dbfc8a4 100644
--- a/src/ctor/repeat2.rs
+++ b/src/ctor/repeat2.rs
@@ -166,10 +166,13 @@ where
 
         crate::debug_ctor_beg!("Repeat2", &range, offset);
         while cnt < N {
+            let last = ctx.offset();
+
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals[cnt] = Some(val);
                 cnt += 1;
             } else {
+                ctx.set_offset(last);
                 break;
             }
         }
diff --git a/src/ctx.rs b/src/ctx.rs
index cf7c4ed..2a9138d 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -296,7 +296,11 @@ where
         P: Ctor<Self, O, H>,
         H: Handler<Self>,
     {
-        pat.construct(self, &mut handler)
+        let offset = self.offset();
+
+        pat.construct(self, &mut handler).inspect_err(|_| {
+            self.set_offset(offset);
+        })
     }
 
     /// Constructs a value using a constructor pattern and a closure handler.
@@ -390,7 +394,13 @@ where
         P: Regex<Self>,
         M: FallibleMap<Span, O>,
     {
-        mapper.try_map(self.map_handler(pat, extract::<Span>())?)
+        let offset = self.offset();
+
+        self.map_handler(pat, extract::<Span>())
+            .and_then(|val| mapper.try_map(val))
+            .inspect_err(|_| {
+                self.set_offset(offset);
+            })
     }
 
     /// Matches a pattern, extracts the matched substring, and maps it.
@@ -424,9 +434,15 @@ where
         P: Regex<Self>,
         M: FallibleMap<Self::Orig<'a>, O>,
     {
-        mapper.try_map(self.map_handler(pat, |ctx: &Self, span: &Span| {
+        let offset = self.offset();
+
+        self.map_handler(pat, |ctx: &Self, span: &Span| {
             ctx.orig_sub(span.beg, span.len)
-        })?)
+        })
+        .and_then(|val| mapper.try_map(val))
+        .inspect_err(|_| {
+            self.set_offset(offset);
+        })
     }
 }
 
@@ -439,9 +455,13 @@ where
         P: Regex<Self>,
         H: Handler<Self, Out = O>,
     {
+        let offset = self.offset();
         let ret = self.try_mat(pat)?;
 
-        handler.invoke(self, &ret).map_err(Into::into)
+        handler.invoke(self, &ret).map_err(|err| {
+            self.set_offset(offset);
+            err.into()
+        })
     }
 }
 
-- 
2.43.0


From d518d74008a6f11baf1c5ff3d692d23c453822dd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:31 +0000
Subject: [PATCH 06/17] fix: roll back when the function of a dynamic builder
 fails

---
 src/ctor/dthen.rs    | 2 +-
 src/regex/builder.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ctor/dthen.rs b/src/ctor/dthen.rs
index e426248..3c8ccaf 100644
--- a/src/ctor/dthen.rs
+++ b/src/ctor/dthen.rs
@@ -231,7 +231,7 @@ where
             debug_ctor_stage!(
                 "DynamicCtorThenBuilder",
                 "right",
-                (self.func)(ctx.ctx(), &l)?.construct(ctx.ctx(), func)
+                (self.func)(ctx.ctx(), &l).and_then(|pat| pat.construct(ctx.ctx(), func))
             )
         };
         let r = ctx.process_ret(r)?;
diff --git a/src/regex/builder.rs b/src/regex/builder.rs
index f57ee5a..84e068f 100644
--- a/src/regex/builder.rs
+++ b/src/regex/builder.rs
@@ -50,7 +50,8 @@ where
         let span = ctx.try_mat(&pat)?;
         // build new regex base on result, let the user control ctx
         // continue match from end of previous span
-        let new_pat = (func)(ctx.ctx(), &span)?;
+        let new_pat = (func)(ctx.ctx(), &span);
+        let new_pat = ctx.process_ret(new_pat)?;
         // match again
         let ret = ctx.try_mat(&new_pat);
 
-- 
2.43.0


From 134915c89c1deb855f1cd9060cc7c36bb0186519 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:14 +0000
Subject: [PATCH 07/17] fix: a negated unit needs one byte, not the length of
 what it rejects

count and times of a negated multi-byte char refused shorter items.
---
 src/neu/op_not.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neu/op_not.rs b/src/neu/op_not.rs
index 4d67f0d..76e29cd 100644
--- a/src/neu/op_not.rs
+++ b/src/neu/op_not.rs
@@ -109,7 +109,7 @@ where
     }
 
     fn min_length(&self) -> usize {
-        self.unit.min_length()
+        1
     }
 }
 
-- 
2.43.0


From 3db3090f570cda7faf73bc27700d21b27e12265e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:14 +0000
Subject: [PATCH 08/17] fix: bounded reports its own error

---
 src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index d6ce9d9..511a9be 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -670,7 +670,7 @@ where
         if self.min <= val && val < self.max {
             Ok(val)
         } else {
-            Err(Error::SelectEq)
+            Err(Error::Bounded)
         }
     }
 }
-- 
2.43.0


From 07c97244a38f5fd9f3810b18a0c14c19966f9908 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:14 +0000
Subject: [PATCH 09/17] fix: span iterators and groups of ArrayStorer with
 empty slots

Asking an exhausted iterator for its size underflowed, iteration stopped at the
first empty slot, and a group without spans was not reported as None.
---
 src/iter/span.rs | 32 +++++++++++++++++---------------
 src/span.rs      |  2 +-
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/iter/span.rs b/src/iter/span.rs
index 8e85228..030fdcb 100644
--- a/src/iter/span.rs
+++ b/src/iter/span.rs
@@ -43,7 +43,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len() - self.cur;
+        let size = self.spans.len().saturating_sub(self.cur);
 
         (size, Some(size))
     }
@@ -105,17 +105,19 @@ where
     type Item = &'a <T as IndexBySpan>::Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let cur = self.cur;
-
-        self.cur += 1;
-        self.spans
-            .get(cur)
-            .and_then(|v| v.as_ref())
-            .and_then(|v| self.value.get_by_span(v))
+        // skip the empty slots
+        while let Some(span) = self.spans.get(self.cur) {
+            self.cur += 1;
+            if let Some(span) = span {
+                return self.value.get_by_span(span);
+            }
+        }
+        None
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len() - self.cur;
+        let spans = self.spans.get(self.cur..).unwrap_or_default();
+        let size = spans.iter().filter(|v| v.is_some()).count();
 
         (size, Some(size))
     }
@@ -140,13 +142,13 @@ impl Iterator for OptionSpanIterator<'_> {
     type Item = Span;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let offset = self.offset;
-
-        if offset < self.spans.len() {
+        // skip the empty slots
+        while let Some(span) = self.spans.get(self.offset) {
             self.offset += 1;
-            self.spans.get(offset).and_then(|v| v.as_ref()).copied()
-        } else {
-            None
+            if span.is_some() {
+                return *span;
+            }
         }
+        None
     }
 }
diff --git a/src/span.rs b/src/span.rs
index de15bb5..ce4c4cd 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -398,7 +398,7 @@ impl<const M: usize, const N: usize> ArrayStorer<M, N> {
     /// - The group exists but contains no spans
     pub fn spans(&self, id: usize) -> Option<&[Option<Span>]> {
         self.spans.get(id).and_then(|v| {
-            if v.is_empty() {
+            if v.iter().all(|v| v.is_none()) {
                 None
             } else {
                 Some(v.as_slice())
-- 
2.43.0


From a3c6f016edea1b734b77b50d9705fa38a3b0ac0f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:14 +0000
Subject: [PATCH 10/17] fix: extending a span with a span inside it underflowed

---
 src/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/span.rs b/src/span.rs
index ce4c4cd..2090409 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -49,7 +49,7 @@ impl Span {
     /// the other span must starts after the current span.
     pub fn add_assign(&mut self, other: Self) -> &mut Self {
         debug_assert!(other.beg >= self.beg, "other beg must bigger than current");
-        self.len += other.len + other.beg - (self.beg + self.len);
+        self.len = self.len.max(other.beg + other.len - self.beg);
         self
     }
 
-- 
2.43.0


From fdd9f072490fe6cb7aca8db51a8d0bacd9a99da8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:56 +0000
Subject: [PATCH 11/17] fix: contexts report an offset beyond the end instead
 of underflowing

orig_at of a byte context and several patterns subtracted the offset from the
length unchecked, and orig_sub and span indexing added offset and length.
---
 src/ctx.rs           |  4 +++-
 src/ctx/regex.rs     |  4 ++--
 src/iter/mod.rs      | 12 ++++++------
 src/neu/opt.rs       |  4 ++--
 src/regex/consume.rs |  2 +-
 src/regex/literal.rs |  2 +-
 6 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index 2a9138d..bf29e89 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -72,7 +72,9 @@ pub trait Context<'a> {
 
     /// Returns a slice of the original data starting from a specific offset.
     fn orig_at(&self, offset: usize) -> Result<Self::Orig<'a>, Error> {
-        self.orig_sub(offset, self.len() - offset)
+        let len = self.len().checked_sub(offset).ok_or(Error::OutOfBound)?;
+
+        self.orig_sub(offset, len)
     }
 
     /// Returns a subslice of the original data with specified offset and length.
diff --git a/src/ctx/regex.rs b/src/ctx/regex.rs
index 6432557..9f306bd 100644
--- a/src/ctx/regex.rs
+++ b/src/ctx/regex.rs
@@ -374,7 +374,7 @@ impl<'a> Context<'a> for RegexCtx<'a, [u8]> {
 
     fn orig_sub(&self, offset: usize, len: usize) -> Result<Self::Orig<'a>, Error> {
         self.dat
-            .get(offset..(offset + len))
+            .get(offset..offset.saturating_add(len))
             .ok_or(Error::OutOfBound)
     }
 
@@ -426,7 +426,7 @@ impl<'a> Context<'a> for RegexCtx<'a, str> {
 
     fn orig_sub(&self, offset: usize, len: usize) -> Result<Self::Orig<'a>, Error> {
         self.dat
-            .get(offset..(offset + len))
+            .get(offset..offset.saturating_add(len))
             .ok_or(Error::OutOfBound)
     }
 
diff --git a/src/iter/mod.rs b/src/iter/mod.rs
index 4c7715a..f4858c2 100644
--- a/src/iter/mod.rs
+++ b/src/iter/mod.rs
@@ -19,7 +19,7 @@ impl IndexBySpan for str {
     type Output = str;
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.saturating_add(span.len))
     }
 }
 
@@ -27,7 +27,7 @@ impl IndexBySpan for &'_ str {
     type Output = str;
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.saturating_add(span.len))
     }
 }
 
@@ -35,7 +35,7 @@ impl IndexBySpan for [u8] {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.saturating_add(span.len))
     }
 }
 
@@ -43,7 +43,7 @@ impl IndexBySpan for &'_ [u8] {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.saturating_add(span.len))
     }
 }
 
@@ -52,7 +52,7 @@ impl IndexBySpan for crate::alloc::Vec<u8> {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.saturating_add(span.len))
     }
 }
 
@@ -61,6 +61,6 @@ impl IndexBySpan for &'_ crate::alloc::Vec<u8> {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.saturating_add(span.len))
     }
 }
diff --git a/src/neu/opt.rs b/src/neu/opt.rs
index b314d48..b584f19 100644
--- a/src/neu/opt.rs
+++ b/src/neu/opt.rs
@@ -195,7 +195,7 @@ where
     #[inline(always)]
     fn try_parse(&self, ctx: &mut C) -> Result<Span, crate::err::Error> {
         let mut ret = Ok(Span::new(ctx.offset(), 0));
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Opt", ctx.offset());
         if let Ok(mut iter) = ctx.peek()
@@ -393,7 +393,7 @@ where
         let mut beg = None;
         let mut end = None;
         let mut ret = Ok(Span::new(ctx.offset(), 0));
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Many0", ctx.offset());
         if let Ok(mut iter) = ctx.peek() {
diff --git a/src/regex/consume.rs b/src/regex/consume.rs
index 2ccc65e..70c9c81 100644
--- a/src/regex/consume.rs
+++ b/src/regex/consume.rs
@@ -77,7 +77,7 @@ where
         let length = self.0;
 
         debug_regex_beg!("Consume", length, ctx.offset());
-        let ret = if ctx.len() - ctx.offset() >= length {
+        let ret = if ctx.len().saturating_sub(ctx.offset()) >= length {
             Ok(new_span_inc(ctx, length))
         } else {
             Err(Error::Consume)
diff --git a/src/regex/literal.rs b/src/regex/literal.rs
index 1ca067d..a680086 100644
--- a/src/regex/literal.rs
+++ b/src/regex/literal.rs
@@ -104,7 +104,7 @@ where
     fn try_parse(&self, ctx: &mut C) -> Result<Span, crate::err::Error> {
         let mut ret = Err(Error::Literal);
         let slice_len = self.literal.length();
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Literal", ctx.offset());
         if remaining_len >= slice_len && self.literal.prefix_of(&ctx.orig()?) {
-- 
2.43.0


From 3731ed5cbfbdf40ca128212567d3429b3459845b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:48 +0000
Subject: [PATCH 12/17] fix: recursive use of rec_parser_sync no longer blocks
 on itself

Parsing held the lock around the parser, so the first recursion waited for the
lock its own thread held. The parser is set once, a OnceLock needs no lock.
---
 src/ctor.rs      |  7 +++++++
 src/lib.rs       |  1 +
 src/regex.rs     |  7 +++++++
 src/regex/rec.rs | 10 ++++++----
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index 834a5c5..a5baff3 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -281,6 +281,13 @@ impl_forward_ctor!(
     crate::std::Mutex<I>
 );
 
+#[cfg(feature = "std")]
+impl_forward_ctor!(
+    self_,
+    self_.get().ok_or(Error::Option)?,
+    crate::std::OnceLock<I>
+);
+
 impl<C, O, I, H> Ctor<C, O, H> for Cell<I>
 where
     I: Ctor<C, O, H> + Copy,
diff --git a/src/lib.rs b/src/lib.rs
index 5e61f0d..ab24393 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -35,6 +35,7 @@ pub(crate) mod std {
     #[allow(unused)]
     pub use std::collections::HashSet;
     pub use std::sync::Mutex;
+    pub use std::sync::OnceLock;
 }
 
 #[cfg(any(feature = "log", feature = "tracing"))]
diff --git a/src/regex.rs b/src/regex.rs
index a1759fa..56850b9 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -234,6 +234,13 @@ impl_forward_regex!(
     crate::std::Mutex<P>
 );
 
+#[cfg(feature = "std")]
+impl_forward_regex!(
+    self_,
+    self_.get().ok_or(Error::Option)?,
+    crate::std::OnceLock<P>
+);
+
 impl<P, C> Regex<C> for Cell<P>
 where
     P: Regex<C> + Copy,
diff --git a/src/regex/rec.rs b/src/regex/rec.rs
index 11fbc75..1ed2ab6 100644
--- a/src/regex/rec.rs
+++ b/src/regex/rec.rs
@@ -8,10 +8,10 @@ mod rec_sync {
     use crate::ctor::Handler;
     use crate::ctx::Context;
     use crate::ctx::Match;
-    use crate::std::Mutex;
+    use crate::std::OnceLock;
 
     pub type RecursiveCtorSync<'b, C, O, H> =
-        Arc<Mutex<Option<Adapter<C, Box<dyn Ctor<C, O, H> + Send + Sync + 'b>>>>>;
+        Arc<OnceLock<Adapter<C, Box<dyn Ctor<C, O, H> + Send + Sync + 'b>>>>;
 
     ///
     /// This function will construct a [RecursiveCtorSync] for recursive parsing,
@@ -50,11 +50,13 @@ mod rec_sync {
         H: Handler<C>,
         I: Ctor<C, O, H> + Send + Sync + 'b,
     {
-        let r_ctor: RecursiveCtorSync<'b, C, O, H> = Arc::new(Mutex::new(None));
+        let r_ctor: RecursiveCtorSync<'b, C, O, H> = Arc::new(OnceLock::new());
         let r_ctor_clone = r_ctor.clone();
         let ctor = handler(r_ctor_clone);
 
-        *r_ctor.lock().unwrap() = Some(Adapter::dyn_box_sync(ctor));
+        // set only once, a lock held while parsing would block the recursion
+        let _ = r_ctor.set(Adapter::dyn_box_sync(ctor));
+
         r_ctor
     }
 
-- 
2.43.0


From b9003a2aecebd6f6c5dbc0c2038a3e4b40980f75 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:35 +0000
Subject: [PATCH 13/17] fix: large unit counts no longer overflow the length
 estimate

---
 src/neu/times.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/neu/times.rs b/src/neu/times.rs
index fda70ea..e95a2aa 100644
--- a/src/neu/times.rs
+++ b/src/neu/times.rs
@@ -231,7 +231,7 @@ where
         let range = M..N;
 
         crate::debug_regex_beg!("Between", &range, ctx.offset());
-        if remaining_len >= M * self.unit.min_length() {
+        if remaining_len >= M.saturating_mul(self.unit.min_length()) {
             while cnt < N {
                 if let Some(pair) = iter.next() {
                     if self.unit.is_match(&pair.1) && self.cond.check(ctx, &pair)? {
@@ -447,8 +447,10 @@ where
         });
 
         let min_length = || match self.range.start_bound() {
-            core::ops::Bound::Included(max) => max * self.unit.min_length(),
-            core::ops::Bound::Excluded(max) => max.saturating_sub(1) * self.unit.min_length(),
+            core::ops::Bound::Included(max) => max.saturating_mul(self.unit.min_length()),
+            core::ops::Bound::Excluded(max) => max
+                .saturating_sub(1)
+                .saturating_mul(self.unit.min_length()),
             core::ops::Bound::Unbounded => 0,
         };
 
-- 
2.43.0


From fff5af7d19de06ab7aa86e2812755a29a685da6c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:08 +0000
Subject: [PATCH 14/17] fix: searching moves on by whole items and stops at the
 end

find and find_all moved one byte after a failed or empty match, so on text
they could report a match inside a character, and move a context beyond its
end after skipped text.
---
 src/ctx.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index bf29e89..f99271a 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -523,7 +523,7 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                ctx.inc(1);
+                inc_item(ctx);
                 None
             }
         };
@@ -603,7 +603,7 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                ctx.inc(1);
+                inc_item(ctx);
                 None
             }
         };
@@ -704,3 +704,14 @@ pub(crate) fn new_span_inc<'a>(ctx: &mut impl Context<'a>, len: usize) -> Span {
     ctx.inc(len);
     span
 }
+
+// move to the next item: a character may be encoded in more than one byte, and
+// an empty match may already have skipped to the end
+fn inc_item<'a>(ctx: &mut impl Context<'a>) {
+    while ctx.offset() < ctx.len() {
+        ctx.inc(1);
+        if ctx.peek().is_ok() {
+            break;
+        }
+    }
+}
-- 
2.43.0


From dfe9ef11c3f834f06d2657b95639b9b528bf3c55 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:21 +0000
Subject: [PATCH 15/17] fix: neu!() named a unit that does not exist

---
 src/macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.rs b/src/macro.rs
index bfeeb28..8f5d123 100644
--- a/src/macro.rs
+++ b/src/macro.rs
@@ -261,7 +261,7 @@ macro_rules! neu {
         $crate::neu::equal($ch)
     };
     () => {
-        $crate::neu::space()
+        $crate::neu::whitespace()
     };
 }
 
-- 
2.43.0


From 6715324f03bf6679fa10d13830895f07bd9908a4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:48 +0000
Subject: [PATCH 16/17] fix: do not panic when the expected number of elements
 can not be reserved

---
 src/ctor/repeat.rs | 5 ++++-
 src/ctor/sep.rs    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ctor/repeat.rs b/src/ctor/repeat.rs
index 5cef805..49b7e10 100644
--- a/src/ctor/repeat.rs
+++ b/src/ctor/repeat.rs
@@ -214,7 +214,10 @@ where
     fn construct(&self, ctx: &mut C, handler: &mut H) -> Result<crate::alloc::Vec<O>, Error> {
         let offset = ctx.offset();
         let mut cnt = 0;
-        let mut vals = crate::alloc::Vec::with_capacity(self.capacity);
+        let mut vals = crate::alloc::Vec::new();
+
+        // only a hint, the elements may never come
+        let _ = vals.try_reserve_exact(self.capacity);
 
         crate::debug_ctor_beg!("Repeat", self.range, offset);
         while self.is_contain(cnt) {
diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 4493de6..774bcc5 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -504,10 +504,13 @@ mod alloc_sep {
         #[inline(always)]
         fn construct(&self, ctx: &mut C, func: &mut H) -> Result<crate::alloc::Vec<O>, Error> {
             let offset: usize = ctx.offset();
-            let mut vals = crate::alloc::Vec::with_capacity(self.capacity.max(self.min));
+            let mut vals = crate::alloc::Vec::new();
             let mut end = offset;
             let range: CRange<usize> = (self.min..).into();
 
+            // only a hint, the elements may never come
+            let _ = vals.try_reserve_exact(self.capacity.max(self.min));
+
             debug_ctor_beg!("Separate", range, offset);
             while let Ok(val) = self.pat.construct(ctx, func) {
                 let s_span = ctx.try_mat(&self.sep);
-- 
2.43.0


From c693820a77079c22f9a94abb64dd7b8cfcf1772b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 17/17] fix: choose the longest match by where it ends, as
 constructing does

---
 src/ctor/longest.rs | 2 +-
 src/regex.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctor/longest.rs b/src/ctor/longest.rs
index a5bb79a..45870d2 100644
--- a/src/ctor/longest.rs
+++ b/src/ctor/longest.rs
@@ -252,7 +252,7 @@ where
 
         // pick longer one
         let ret = match (l, r) {
-            (Ok(l), Ok(r)) => Ok(if l.len() >= r.len() {
+            (Ok(l), Ok(r)) => Ok(if off_l >= off_r {
                 (off_l, l)
             } else {
                 (off_r, r)
diff --git a/src/regex.rs b/src/regex.rs
index 56850b9..3f32dc5 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -824,7 +824,7 @@ where
 
             // match regex
             if let Ok(span) = ctx.try_mat(t2p(item))
-                && longest.map(|v: Span| v.len() < span.len()).unwrap_or(true)
+                && (longest.is_none() || ctx.offset() > end)
             {
                 longest = Some(span);
                 end = ctx.offset();
-- 
2.43.0

