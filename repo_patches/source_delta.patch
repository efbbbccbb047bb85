From d98a9d4f0e95102ad697d7c95503d91ddc7b2f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 01/18] fix: FOLLOW must look past neighbours that can be empty

FOLLOW(Yi) only included FIRST of the immediate neighbour Yi+1, so with
X -> A B? C the terminals of C were missing from FOLLOW(A).
---
 packages/teleparse/src/syntax/follow/builder.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/teleparse/src/syntax/follow/builder.rs b/packages/teleparse/src/syntax/follow/builder.rs
index 3325f38..0686451 100644
--- a/packages/teleparse/src/syntax/follow/builder.rs
+++ b/packages/teleparse/src/syntax/follow/builder.rs
@@ -65,10 +65,18 @@ impl<'a, L: Lexicon> FollowBuilder<'a, L> {
             ));
             set.insert(*yi);
         }
-        for yi in sequence.windows(2).rev() {
-            // for X -> Y1 Y2 ... Yi Yi+1 ... Yn
-            // FOLLOW(Yi) = FOLLOW(Yi) U (FIRST(Yi+1) - { epsilon })
-            self.add(FollowRel::union_first_minus_epsilon(yi[0], yi[1]));
+        for (i, yi) in sequence.iter().enumerate() {
+            // for X -> Y1 Y2 ... Yi Yi+1 ... Yj ... Yn
+            // if Yi+1 ... Yj-1 all has epsilon in FIRST,
+            // then FOLLOW(Yi) = FOLLOW(Yi) U (FIRST(Yj) - { epsilon })
+            let mut between = BTreeSet::new();
+            for yj in &sequence[i + 1..] {
+                self.add(FollowRel::if_epsilon_in_all_first_iter(
+                    between.iter(),
+                    FollowRel::union_first_minus_epsilon(*yi, *yj),
+                ));
+                between.insert(*yj);
+            }
         }
     }
 
-- 
2.43.0


From dc23a3bcb7b4516eb18ccb37f268c1084d418ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 02/18] fix: left recursion was never detected

The visited check returned before the path check, so a production reached
twice was silently accepted whether or not it is on the current path.
Check the path first, follow only left edges, and check the other symbols
of a sequence as new starting points.
---
 packages/teleparse/src/syntax/metadata.rs | 145 +++++++++++-----------
 1 file changed, 70 insertions(+), 75 deletions(-)

diff --git a/packages/teleparse/src/syntax/metadata.rs b/packages/teleparse/src/syntax/metadata.rs
index d81bf19..2d0887f 100644
--- a/packages/teleparse/src/syntax/metadata.rs
+++ b/packages/teleparse/src/syntax/metadata.rs
@@ -56,12 +56,7 @@ impl<L: Lexicon> MetadataBuilder<L> {
         let names = self.names;
         let prods = self.productions;
         let first = self.first_builder.build();
-        let mut seen = BTreeSet::new();
-        let mut set = BTreeSet::new();
-        let mut stack = Vec::new();
-        check_left_recursive(
-            &names, &prods, root, &mut seen, &mut set, &mut stack, &first,
-        )?;
+        check_left_recursive(&names, &prods, root, false, &first)?;
         let mut follow_builder = FollowBuilder::new(&first);
         for (t, prod) in &prods {
             match prod {
@@ -75,8 +70,11 @@ impl<L: Lexicon> MetadataBuilder<L> {
             }
         }
         let follow = follow_builder.build(root);
-        seen.clear();
+        let mut seen = BTreeSet::new();
         check_conflicts(&names, &prods, root, &mut seen, &first, &follow)?;
+        // left recursion behind symbols that can be empty is usually better explained by the
+        // conflict it causes, so this is checked after the conflicts
+        check_left_recursive(&names, &prods, root, true, &first)?;
         let mut jump = Jump::new();
         seen.clear();
         build_jump(&prods, root, &mut seen, &first, &mut jump);
@@ -88,19 +86,46 @@ impl<L: Lexicon> MetadataBuilder<L> {
         })
     }
 }
+/// Check if there is any symbol that can begin with itself
+///
+/// `through_empty` controls if symbols behind other symbols that can be empty are considered
 fn check_left_recursive<L: Lexicon>(
+    names: &BTreeMap<TypeId, String>,
+    prods: &BTreeMap<TypeId, ProductionEntry>,
+    root: TypeId,
+    through_empty: bool,
+    first: &First<L>,
+) -> Result<(), GrammarError> {
+    let mut seen = BTreeSet::new();
+    let mut stack = Vec::new();
+    let mut deferred = vec![root];
+    while let Some(t) = deferred.pop() {
+        check_left_recursive_from(
+            names,
+            prods,
+            t,
+            through_empty,
+            &mut seen,
+            &mut stack,
+            &mut deferred,
+            first,
+        )?;
+    }
+    Ok(())
+}
+
+#[allow(clippy::too_many_arguments)]
+fn check_left_recursive_from<L: Lexicon>(
     names: &BTreeMap<TypeId, String>,
     prods: &BTreeMap<TypeId, ProductionEntry>,
     t: TypeId,
+    through_empty: bool,
     seen: &mut BTreeSet<TypeId>,
-    set: &mut BTreeSet<TypeId>,
     stack: &mut Vec<TypeId>,
+    deferred: &mut Vec<TypeId>,
     first: &First<L>,
 ) -> Result<(), GrammarError> {
-    if !seen.insert(t) {
-        return Ok(());
-    }
-    if !set.insert(t) {
+    if stack.contains(&t) {
         let stack = stack
             .iter()
             .map(|t| names.get(t).map(|x| x.as_str()).unwrap_or_default())
@@ -108,81 +133,51 @@ fn check_left_recursive<L: Lexicon>(
         let current = names.get(&t).map(|x| x.as_str()).unwrap_or_default();
         return Err(GrammarError::left_recursion(&stack, current));
     }
+    if !seen.insert(t) {
+        return Ok(());
+    }
     match prods.get(&t) {
-        None => {
-            set.remove(&t);
-        }
-        Some(ProductionEntry::Terminal) => {
-            set.remove(&t);
-        }
+        None => {}
+        Some(ProductionEntry::Terminal) => {}
         Some(ProductionEntry::Union(types)) => {
             stack.push(t);
             for inner in types.iter() {
-                let result = check_left_recursive(names, prods, *inner, seen, set, stack, first);
-                if let Err(e) = result {
-                    stack.pop();
-                    set.remove(&t);
-                    return Err(e);
-                }
+                check_left_recursive_from(
+                    names,
+                    prods,
+                    *inner,
+                    through_empty,
+                    seen,
+                    stack,
+                    deferred,
+                    first,
+                )?;
             }
             stack.pop();
-            set.remove(&t);
         }
         Some(ProductionEntry::Sequence(types)) => {
             stack.push(t);
-            let mut iter = types.iter();
-            let inner_first = match iter.next() {
-                Some(inner) => inner,
-                None => {
-                    stack.pop();
-                    set.remove(&t);
-                    return Ok(());
-                }
-            };
-            let result = check_left_recursive(names, prods, *inner_first, seen, set, stack, first);
-            if let Err(e) = result {
-                stack.pop();
-                set.remove(&t);
-                return Err(e);
-            }
-            let mut temp_stack = Vec::new();
-            let mut temp_set = BTreeSet::new();
-
-            let (mut cur_stack, mut cur_set, mut need_pop) =
-                if first.get(inner_first).contains_epsilon() {
-                    (stack, set, true)
+            let mut is_left = true;
+            for inner in types.iter() {
+                if is_left {
+                    check_left_recursive_from(
+                        names,
+                        prods,
+                        *inner,
+                        through_empty,
+                        seen,
+                        stack,
+                        deferred,
+                        first,
+                    )?;
+                    is_left = through_empty && first.get(inner).contains_epsilon();
                 } else {
-                    stack.pop();
-                    set.remove(&t);
-                    (&mut temp_stack, &mut temp_set, false)
-                };
-
-            for inner in iter {
-                let result =
-                    check_left_recursive(names, prods, *inner, seen, cur_set, cur_stack, first);
-                if let Err(e) = result {
-                    if need_pop {
-                        cur_stack.pop();
-                        cur_set.remove(&t);
-                    }
-                    return Err(e);
+                    // not a left edge, so this must not be checked as part of
+                    // the current path
+                    deferred.push(*inner);
                 }
-                if !first.get(inner).contains_epsilon() {
-                    if need_pop {
-                        cur_stack.pop();
-                        cur_set.remove(&t);
-                    }
-                    temp_stack.clear();
-                    temp_set.clear();
-                    cur_stack = &mut temp_stack;
-                    cur_set = &mut temp_set;
-                    need_pop = false;
-                };
-            }
-            if need_pop {
-                cur_stack.pop();
-                cur_set.remove(&t);
             }
+            stack.pop();
         }
     }
 
-- 
2.43.0


From 1572508fed2effae5c78c8ddaeb36486b094c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 03/18] fix: clearing the universal literal set left it
 universal

This made a sequence conflict check keep the terminals of fields that are
not adjacent, so valid grammars were rejected.
---
 packages/teleparse/src/syntax/lit_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/teleparse/src/syntax/lit_set.rs b/packages/teleparse/src/syntax/lit_set.rs
index 299dbda..d1a482b 100644
--- a/packages/teleparse/src/syntax/lit_set.rs
+++ b/packages/teleparse/src/syntax/lit_set.rs
@@ -49,7 +49,7 @@ impl LitSet {
     pub fn clear(&mut self) {
         match self {
             Self::Match(set) => set.clear(),
-            Self::Any => {}
+            Self::Any => *self = Self::new(),
         }
     }
 
-- 
2.43.0


From f8a7ff91be7c4037cb3d2a7f9586b39f655030a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 04/18] fix: choice with an empty alternative panicked on a
 token outside FIRST

The alternative that can be empty must be taken when the next token cannot
start any alternative.
---
 packages/teleparse/src/syntax/jump.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/teleparse/src/syntax/jump.rs b/packages/teleparse/src/syntax/jump.rs
index 1005ace..232e413 100644
--- a/packages/teleparse/src/syntax/jump.rs
+++ b/packages/teleparse/src/syntax/jump.rs
@@ -79,7 +79,8 @@ pub struct JumpTable<L: Lexicon> {
     /// The id to return when looking up epsilon
     epsilon: Option<usize>,
     /// when looking up a token:
-    ///   - tree look up None: return the one registered for any match (or None)
+    ///   - tree look up None: return the one registered for any match, otherwise the one
+    ///     registered for epsilon (or None)
     ///   - tree look up Some: return the one registered for that literal
     map: Map<L, LitJumpTable>,
 }
@@ -121,7 +122,7 @@ impl<L: Lexicon> JumpTable<L> {
 
         match entry.1.get(token.src).copied() {
             Some(value) => Some(value),
-            None => entry.0,
+            None => entry.0.or(self.epsilon),
         }
     }
 
-- 
2.43.0


From be5cb325bce11058914485a9990f0a0c1d5e1e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 05/18] fix: duplicate literals were accepted after a terminal
 without literal

---
 packages/macros/src/lexicon.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 8e27db6..01e0e12 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -166,15 +166,15 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
                         if match_lit.is_empty() {
                             syn_error!(value, "Cannot use empty string for matching");
                         }
+                        if infer_literal_set.contains(&match_lit) {
+                            syn_error!(
+                                value,
+                                "Duplicate literal pattern `{}` for variant `{}`.",
+                                match_lit,
+                                variant_ident
+                            );
+                        }
                         if let Some(infer_literals) = &mut infer_literals {
-                            if infer_literal_set.contains(&match_lit) {
-                                syn_error!(
-                                    value,
-                                    "Duplicate literal pattern `{}` for variant `{}`.",
-                                    match_lit,
-                                    variant_ident
-                                );
-                            }
                             infer_literals.push(match_lit.clone());
                         }
                         infer_literal_set.insert(match_lit);
-- 
2.43.0


From be8c91f19ea85c674bdddea7c91d927e6ee05126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 06/18] fix: semantic-only variants shifted the lexer rules of
 later variants

A variant with neither regex nor terminals is not part of the lexer, but it
still added an (empty) rule, so every later variant got the rule of the one
before it.
---
 packages/macros/src/lexicon.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 01e0e12..87347bf 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -258,7 +258,8 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
                 });
             }
             lex_variant_derived_attrs.push(regex_attr);
-        } else if let Some(infer_literals) = infer_literals {
+        } else if let Some(infer_literals) = infer_literals.filter(|x| !x.is_empty()) {
+            // semantic-only variants are not in the lexer, and must not contribute an entry here
             let mut token_attr = TokenStream2::new();
             for lit in infer_literals {
                 token_attr.extend(quote! {
-- 
2.43.0


From 5a978fa428292b80da5e4b53d52e93ec1c0b2811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 07/18] fix: token bits of lexicons with more than 32 variants
 overflowed

---
 packages/macros/src/lexicon.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 87347bf..25001ec 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -58,6 +58,13 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
         _ => syn_error!(input, "derive_lexicon can have at most 128 variants"),
     };
 
+    // an untyped `1` is an i32, which is too narrow for the larger enums
+    let bit_expr = if enum_data.variants.len() > 32 {
+        quote!((1 as Self::Bit) << self.id())
+    } else {
+        quote!((1 << self.id()) as Self::Bit)
+    };
+
     let enum_ident = &input.ident;
     let enum_vis = &input.vis;
 
@@ -305,7 +312,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
 
                 fn id(&self) -> usize { *self as usize }
                 fn from_id_unchecked(id: usize) -> Self { unsafe { std::mem::transmute(id) } }
-                fn to_bit(&self) -> Self::Bit { (1 << self.id()) as Self::Bit }
+                fn to_bit(&self) -> Self::Bit { #bit_expr }
                 fn first() -> Self { Self::#enum_first_variant }
 
                 fn next(&self) -> ::core::option::Option<Self> {
-- 
2.43.0


From 6a2d0a2e99539a9fdc1d72c1db3ef4dd3b83c69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 08/18] fix: an empty span inside a token was reported as
 overlapping it

---
 packages/teleparse/src/lex/vec.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/teleparse/src/lex/vec.rs b/packages/teleparse/src/lex/vec.rs
index ebff39a..30a1be6 100644
--- a/packages/teleparse/src/lex/vec.rs
+++ b/packages/teleparse/src/lex/vec.rs
@@ -168,6 +168,10 @@ impl<L: Lexicon> TokenSlice<L> {
     /// `Some` is returned
     pub fn overlap_bounds<S: Into<Span>>(&self, span: S) -> Option<(usize, usize)> {
         let span = span.into();
+        if span.lo >= span.hi {
+            // nothing can have a non-empty intersection with an empty span
+            return None;
+        }
         let lo = match self.search_lo(span.lo) {
             Ok(i) => i, // i must be overlapping/included
             Err(i) => {
-- 
2.43.0


From 22f095df9fafbad54c51b496df5bbfd951095a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 09/18] fix: a token inserted at the end of input was placed
 after the trailing blanks

Parts that are empty at the same position are placed right after the last
token, so what follows the inserted token started before it.
---
 packages/teleparse/src/parser/parser_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/teleparse/src/parser/parser_impl.rs b/packages/teleparse/src/parser/parser_impl.rs
index d136e45..b9757e1 100644
--- a/packages/teleparse/src/parser/parser_impl.rs
+++ b/packages/teleparse/src/parser/parser_impl.rs
@@ -138,7 +138,7 @@ impl<'s, L: Lexicon> Parser<'s, L> {
             None => {
                 if follow.contains_eof() {
                     let expecting = FirstSet::one(ty, Some(match_lit));
-                    let token = Token::new(self.current_span(), ty);
+                    let token = Token::new(self.empty_span(), ty);
                     return SynResult::Recovered(token, vec![self.expecting(expecting)]);
                 }
                 return SynResult::Panic(vec![self.unexpected_eof()]);
-- 
2.43.0


From 2e6dd9af315b50754033586eb59da193ba71fd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 10/18] fix: a separated list with an optional separator
 stopped at the first missing one

---
 packages/teleparse/src/tp_impl/split.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/teleparse/src/tp_impl/split.rs b/packages/teleparse/src/tp_impl/split.rs
index 90f543a..aa3c1e1 100644
--- a/packages/teleparse/src/tp_impl/split.rs
+++ b/packages/teleparse/src/tp_impl/split.rs
@@ -98,7 +98,10 @@ where
             if token.is_none() {
                 break;
             }
-            if !punct_first.contains(token) {
+            // if P can be empty, the next T can follow directly
+            if !punct_first.contains(token)
+                && !(punct_first.contains_epsilon() && elem_first.contains(token))
+            {
                 break;
             }
             // expecting P
-- 
2.43.0


From ab6908d647684d2551a68d1b108c24abf8f6128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 11/18] fix: sequence conflicts named the wrong neighbour

The first symbol of the sequence was named even if it cannot be empty or has
nothing to do with the conflict, and the terminals were those of every
symbol before the conflicting one.
---
 packages/teleparse/src/syntax/metadata.rs | 49 ++++++++++++++---------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/packages/teleparse/src/syntax/metadata.rs b/packages/teleparse/src/syntax/metadata.rs
index 2d0887f..c3b3e68 100644
--- a/packages/teleparse/src/syntax/metadata.rs
+++ b/packages/teleparse/src/syntax/metadata.rs
@@ -233,35 +233,46 @@ fn check_conflicts<L: Lexicon>(
         }
         Some(ProductionEntry::Sequence(types)) => {
             let mut iter = types.iter();
-            let mut cur = match iter.next() {
-                Some(inner) => inner,
+            // the symbols right before the current one that can be empty
+            let mut before = Vec::new();
+            let mut cur_check = FirstSet::new();
+            match iter.next() {
+                Some(inner) => {
+                    let cur_first = first.get(inner);
+                    if cur_first.contains_epsilon() {
+                        before.push(inner);
+                        cur_check.union_minus_epsilon(cur_first);
+                    }
+                }
                 None => return Ok(()),
             };
-            let cur_first = first.get(cur);
-            let mut cur_check = if cur_first.contains_epsilon() {
-                cur_first.clone()
-            } else {
-                FirstSet::new()
-            };
             for inner in iter {
                 let next_first = first.get(inner);
                 if cur_check.intersects_minus_epsilon(next_first) {
-                    let cur_name = names.get(cur).cloned().unwrap_or_default();
-                    let next_name = names.get(inner).cloned().unwrap_or_default();
-                    let self_name = names.get(&t).cloned().unwrap_or_default();
-                    let terminals = cur_check
-                        .intersection_repr_minus_epsilon(next_first)
-                        .into_iter()
-                        .join(", ");
-                    return Err(GrammarError::FirstFollowSeqConflict(
-                        self_name, cur_name, next_name, terminals,
-                    ));
+                    // find which one is conflicting
+                    for cur in &before {
+                        let cur_first = first.get(cur);
+                        if !cur_first.intersects_minus_epsilon(next_first) {
+                            continue;
+                        }
+                        let cur_name = names.get(cur).cloned().unwrap_or_default();
+                        let next_name = names.get(inner).cloned().unwrap_or_default();
+                        let self_name = names.get(&t).cloned().unwrap_or_default();
+                        let terminals = cur_first
+                            .intersection_repr_minus_epsilon(next_first)
+                            .into_iter()
+                            .join(", ");
+                        return Err(GrammarError::FirstFollowSeqConflict(
+                            self_name, cur_name, next_name, terminals,
+                        ));
+                    }
                 }
                 if next_first.contains_epsilon() {
+                    before.push(inner);
                     cur_check.union_minus_epsilon(next_first);
                 } else {
+                    before.clear();
                     cur_check.clear();
-                    cur = inner;
                 }
             }
             check_self_first_follow_conflict(names, t, first, follow)?;
-- 
2.43.0


From a920edca1572cb0b3a0d65eb195d10470a5170a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:23 +0000
Subject: [PATCH 12/18] fix: a missing terminator at the end of input was not
 reported

The parse failed (or the part was dropped from the tree) without any error.
---
 packages/teleparse/src/tp_impl/recover.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/teleparse/src/tp_impl/recover.rs b/packages/teleparse/src/tp_impl/recover.rs
index 850fac1..c6a6aaf 100644
--- a/packages/teleparse/src/tp_impl/recover.rs
+++ b/packages/teleparse/src/tp_impl/recover.rs
@@ -75,6 +75,9 @@ where
                         }
                     };
                 }
+                if panic.is_none() {
+                    panic = Some(parser.expecting(tail_first.clone()));
+                }
                 break None;
             }
             if tail_first.contains(token) || tail_first.contains_epsilon() {
-- 
2.43.0


From 929fd9468221b3508a050f5df42c98f57a39454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:23 +0000
Subject: [PATCH 13/18] fix: errors before the one a list or recovery gave up
 on were dropped

When a part had already recovered from an error before it failed, only the
last error was kept, so the report pointed after the actual problem.
---
 packages/teleparse/src/tp_impl/punct.rs   |  9 +++++----
 packages/teleparse/src/tp_impl/recover.rs | 24 ++++++++++++++---------
 packages/teleparse/src/tp_impl/split.rs   |  9 +++++----
 3 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/packages/teleparse/src/tp_impl/punct.rs b/packages/teleparse/src/tp_impl/punct.rs
index 613493d..0cd3061 100644
--- a/packages/teleparse/src/tp_impl/punct.rs
+++ b/packages/teleparse/src/tp_impl/punct.rs
@@ -182,12 +182,13 @@ where
                             errors.extend(e);
                             continue 'outer;
                         }
-                        SynResult::Panic(e) => {
-                            if let Some(e) = e.into_iter().next_back() {
+                        SynResult::Panic(mut e) => {
+                            if let Some(last) = e.pop() {
                                 if let Some(p) = &mut panic {
-                                    p.span.hi = e.span.hi;
+                                    p.span.hi = last.span.hi;
                                 } else {
-                                    panic = Some(e);
+                                    errors.extend(e);
+                                    panic = Some(last);
                                 }
                             }
                         }
diff --git a/packages/teleparse/src/tp_impl/recover.rs b/packages/teleparse/src/tp_impl/recover.rs
index c6a6aaf..cf8f080 100644
--- a/packages/teleparse/src/tp_impl/recover.rs
+++ b/packages/teleparse/src/tp_impl/recover.rs
@@ -46,7 +46,11 @@ where
                         errors.extend(e);
                         (None, x.span(), Some(x))
                     }
-                    SynResult::Panic(e) => (e.into_iter().next_back(), parser.empty_span(), None),
+                    SynResult::Panic(mut e) => {
+                        let last = e.pop();
+                        errors.extend(e);
+                        (last, parser.empty_span(), None)
+                    }
                 }
             } else {
                 let e = parser.expecting(head_first.clone());
@@ -63,12 +67,13 @@ where
                             errors.extend(e);
                             Some(x)
                         }
-                        SynResult::Panic(e) => {
-                            if let Some(e) = e.into_iter().next_back() {
+                        SynResult::Panic(mut e) => {
+                            if let Some(last) = e.pop() {
                                 if let Some(p) = &mut panic {
-                                    p.span.hi = e.span.hi;
+                                    p.span.hi = last.span.hi;
                                 } else {
-                                    panic = Some(e);
+                                    errors.extend(e);
+                                    panic = Some(last);
                                 }
                             }
                             None
@@ -87,12 +92,13 @@ where
                         errors.extend(e);
                         break Some(x);
                     }
-                    SynResult::Panic(e) => {
-                        if let Some(e) = e.into_iter().next_back() {
+                    SynResult::Panic(mut e) => {
+                        if let Some(last) = e.pop() {
                             if let Some(p) = &mut panic {
-                                p.span.hi = e.span.hi;
+                                p.span.hi = last.span.hi;
                             } else {
-                                panic = Some(e);
+                                errors.extend(e);
+                                panic = Some(last);
                             }
                         }
                     }
diff --git a/packages/teleparse/src/tp_impl/split.rs b/packages/teleparse/src/tp_impl/split.rs
index aa3c1e1..4623c9c 100644
--- a/packages/teleparse/src/tp_impl/split.rs
+++ b/packages/teleparse/src/tp_impl/split.rs
@@ -139,12 +139,13 @@ where
                             }
                             continue 'outer;
                         }
-                        SynResult::Panic(e) => {
-                            if let Some(e) = e.into_iter().next_back() {
+                        SynResult::Panic(mut e) => {
+                            if let Some(last) = e.pop() {
                                 if let Some(p) = &mut panic {
-                                    p.span.hi = e.span.hi;
+                                    p.span.hi = last.span.hi;
                                 } else {
-                                    panic = Some(e);
+                                    errors.extend(e);
+                                    panic = Some(last);
                                 }
                             }
                         }
-- 
2.43.0


From 33ef3fd007ea2212be98ed44c469a1bf1046a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 14/18] fix: lexicons with more than 32 variants did not
 compile

---
 packages/macros/src/lexicon.rs    | 11 +++++++++--
 packages/teleparse/src/lex/map.rs | 24 ++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 25001ec..0f56478 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -65,6 +65,14 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
         quote!((1 << self.id()) as Self::Bit)
     };
 
+    // arrays are only `Default` for up to 32 elements
+    let enum_len = enum_data.variants.len();
+    let map_ty = if enum_len > 32 {
+        quote!(#teleparse::lex::LargeMap<T, #enum_len>)
+    } else {
+        quote!([T; #enum_len])
+    };
+
     let enum_ident = &input.ident;
     let enum_vis = &input.vis;
 
@@ -277,7 +285,6 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
         }
     }
     // variants size checked when determining repr
-    let enum_len = enum_data.variants.len();
     let enum_first_variant = &enum_data.variants.first().unwrap().ident;
     let enum_last_variant = &enum_data.variants.last().unwrap().ident;
     let out = quote! {
@@ -308,7 +315,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
             impl #teleparse::Lexicon for #enum_ident {
                 type Bit = #repr_ty;
                 type Lexer<'s> = #teleparse::lex::LogosLexerWrapper<'s, Self, DerivedLogos>;
-                type Map<T: Default + Clone> = [T; #enum_len];
+                type Map<T: Default + Clone> = #map_ty;
 
                 fn id(&self) -> usize { *self as usize }
                 fn from_id_unchecked(id: usize) -> Self { unsafe { std::mem::transmute(id) } }
diff --git a/packages/teleparse/src/lex/map.rs b/packages/teleparse/src/lex/map.rs
index 78a8f08..3c10bcf 100644
--- a/packages/teleparse/src/lex/map.rs
+++ b/packages/teleparse/src/lex/map.rs
@@ -77,3 +77,27 @@ impl<L: Lexicon, T: Default + Clone> Map<L, T> {
             .map(|(ty, item)| (L::from_id_unchecked(ty), item))
     }
 }
+
+/// Storage of [`Map`] for lexicons with more than 32 token types,
+/// since `[T; N]` is only [`Default`] up to that size.
+#[doc(hidden)]
+#[derive(Clone)]
+pub struct LargeMap<T, const N: usize>([T; N]);
+
+impl<T: Default, const N: usize> Default for LargeMap<T, N> {
+    fn default() -> Self {
+        Self(std::array::from_fn(|_| T::default()))
+    }
+}
+
+impl<T, const N: usize> Borrow<[T]> for LargeMap<T, N> {
+    fn borrow(&self) -> &[T] {
+        &self.0
+    }
+}
+
+impl<T, const N: usize> BorrowMut<[T]> for LargeMap<T, N> {
+    fn borrow_mut(&mut self) -> &mut [T] {
+        &mut self.0
+    }
+}
-- 
2.43.0


From 9f8eba5ca994120f28f74895fdc5f306cc5105da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:16 +0000
Subject: [PATCH 15/18] fix: characters too short for any pattern at the end of
 input were not reported

---
 packages/teleparse/src/lex/lexer.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/packages/teleparse/src/lex/lexer.rs b/packages/teleparse/src/lex/lexer.rs
index 9186e54..0519b78 100644
--- a/packages/teleparse/src/lex/lexer.rs
+++ b/packages/teleparse/src/lex/lexer.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use logos::{Lexer as LogosLexer, Logos};
+use logos::{Lexer as LogosLexer, Logos, Source};
 
 use super::{Lexicon, Span, Token};
 
@@ -38,7 +38,22 @@ impl<'s, T: Logos<'s>, L: Lexicon + From<T>> Lexer<'s> for LogosLexerWrapper<'s,
         let mut token = None;
         loop {
             match self.next_internal() {
-                None => break,
+                None => {
+                    // the inner lexer also ends when fewer bytes are left
+                    // than its shortest pattern needs, so what is left
+                    // cannot be a token
+                    let end = self.inner.span().end;
+                    let rest = self.inner.source().len() - end;
+                    if rest > 0 {
+                        if !has_invalid {
+                            invalid_start = end;
+                        }
+                        has_invalid = true;
+                        invalid_end = end + rest;
+                        self.inner.bump(rest);
+                    }
+                    break;
+                }
                 Some(Ok(next)) => {
                     token = Some(next);
                     break;
-- 
2.43.0


From b54a945703ed1c28a7c7c8443f89bb9081f2b27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:16 +0000
Subject: [PATCH 16/18] fix: texts matched by a later alternative of their
 pattern were refused

---
 packages/macros/src/lexicon.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 0f56478..054dc4e 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -241,7 +241,12 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
             let mut regex_attr = TokenStream2::new();
             for regex in regexes {
                 let regex_obj = checked_regex_rule(&regex)?;
+                // the lexer takes the longest match, but `find` prefers earlier alternatives
+                let whole_regex = regex::Regex::new(&format!("^(?:{})$", regex.value())).ok();
                 for match_lit in &infer_literal_set {
+                    if whole_regex.as_ref().is_some_and(|x| x.is_match(match_lit)) {
+                        continue;
+                    }
                     // if we are able to match, we must be able to match the entire string
                     // For example, if the regex matches `key` and the literal is `keyboard`.
                     // If we were to match `keyboard`, `key` should be matched instead
-- 
2.43.0


From 61f4edb996f5b38afde7e8413f2c7dca1252c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 17/18] fix: derive(Node) generated invalid code for structs
 with named fields

---
 packages/macros/src/node.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/node.rs b/packages/macros/src/node.rs
index 360139d..f36db66 100644
--- a/packages/macros/src/node.rs
+++ b/packages/macros/src/node.rs
@@ -29,7 +29,9 @@ pub fn expand(input: &syn::DeriveInput) -> syn::Result<TokenStream2> {
                 }
             };
             let ty = parse_node_type(ty)?;
-            from_body = quote! { Self { #ident, ::core::default::Default::default() } };
+            let others = fields.named.iter().skip(1).map(|field| &field.ident);
+            from_body =
+                quote! { Self { #ident: node #(, #others: ::core::default::Default::default())* } };
             field_expr = quote! { self.#ident };
             target_ty = quote! { #ty };
         }
-- 
2.43.0


From b55dc26563aebf4c2614395c85e88f50629ac2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 18/18] fix: optional sequences of repetitions were named as
 other constructs in reports

---
 packages/teleparse/src/syntax/ast.rs     | 11 +++++++++++
 packages/teleparse/src/tp_impl/iter.rs   |  5 +++++
 packages/teleparse/src/tp_impl/option.rs | 11 +----------
 packages/teleparse/src/tp_impl/punct.rs  |  5 +++++
 4 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/packages/teleparse/src/syntax/ast.rs b/packages/teleparse/src/syntax/ast.rs
index 86df1eb..ce973ff 100644
--- a/packages/teleparse/src/syntax/ast.rs
+++ b/packages/teleparse/src/syntax/ast.rs
@@ -40,6 +40,13 @@ pub trait Production: 'static {
         Cow::Borrowed(std::any::type_name::<Self>())
     }
 
+    /// Get the type name for an optional AST node of this type for debugging
+    #[doc(hidden)]
+    #[inline]
+    fn debug_optional() -> Cow<'static, str> {
+        Cow::Owned(format!("({})?", Self::debug()))
+    }
+
     fn register(meta: &mut MetadataBuilder<Self::L>);
 }
 
@@ -57,6 +64,10 @@ macro_rules! production_passthrough {
             <$P>::debug()
         }
         #[inline]
+        fn debug_optional() -> ::std::borrow::Cow<'static, str> {
+            <$P>::debug_optional()
+        }
+        #[inline]
         fn register(meta: &mut $crate::syntax::MetadataBuilder<Self::L>) {
             <$P>::register(meta)
         }
diff --git a/packages/teleparse/src/tp_impl/iter.rs b/packages/teleparse/src/tp_impl/iter.rs
index df309f6..a7f692d 100644
--- a/packages/teleparse/src/tp_impl/iter.rs
+++ b/packages/teleparse/src/tp_impl/iter.rs
@@ -17,6 +17,11 @@ impl<T: Production> Production for OneOrMore<T> {
         Cow::Owned(format!("( {} )+", T::debug()))
     }
 
+    #[inline]
+    fn debug_optional() -> Cow<'static, str> {
+        Cow::Owned(format!("( {} )*", T::debug()))
+    }
+
     fn register(meta: &mut MetadataBuilder<Self::L>) {
         crate::register_sequence!(meta, T, OptionProd<OneOrMore<T>>)
     }
diff --git a/packages/teleparse/src/tp_impl/option.rs b/packages/teleparse/src/tp_impl/option.rs
index 06bdc77..3333cc7 100644
--- a/packages/teleparse/src/tp_impl/option.rs
+++ b/packages/teleparse/src/tp_impl/option.rs
@@ -15,16 +15,7 @@ impl<T: Production> Production for OptionProd<T> {
     type L = T::L;
     #[inline]
     fn debug() -> Cow<'static, str> {
-        let inner = T::debug();
-        if let Some(rest) = inner.strip_prefix('(') {
-            if let Some(inner) = rest.strip_suffix(")+") {
-                return Cow::Owned(format!("({inner})*"));
-            }
-            if let Some(inner) = rest.strip_suffix("]+") {
-                return Cow::Owned(format!("({inner}]*"));
-            }
-        }
-        Cow::Owned(format!("({})?", T::debug()))
+        T::debug_optional()
     }
 
     fn register(meta: &mut MetadataBuilder<Self::L>) {
diff --git a/packages/teleparse/src/tp_impl/punct.rs b/packages/teleparse/src/tp_impl/punct.rs
index 0cd3061..37f262c 100644
--- a/packages/teleparse/src/tp_impl/punct.rs
+++ b/packages/teleparse/src/tp_impl/punct.rs
@@ -17,6 +17,11 @@ impl<T: Production, P: Production<L = T::L>> Production for PunctProd<T, P> {
         Cow::Owned(format!("( {} )[{}]+", T::debug(), P::debug()))
     }
 
+    #[inline]
+    fn debug_optional() -> Cow<'static, str> {
+        Cow::Owned(format!("( {} )[{}]*", T::debug(), P::debug()))
+    }
+
     fn register(meta: &mut MetadataBuilder<Self::L>) {
         crate::register_sequence!(meta, T, OptionProd<(P, OptionProd<Self>)>)
     }
-- 
2.43.0

