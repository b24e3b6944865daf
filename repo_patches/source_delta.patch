From e3522a6a7391a54eeb8a501f687cb0d8e45cba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 01/14] fix: tell production states apart by position

Two states of one production at different positions compared equal, so
sets of states dropped all but one of them and the Earley parser panicked
merging their values.
---
 src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 514d43d..9f495cb 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -50,7 +50,10 @@ where
   NT: Ord,
 {
   fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-    self.prod.cmp(&other.prod)
+    self
+      .prod
+      .cmp(&other.prod)
+      .then_with(|| self.index.cmp(&other.index))
   }
 }
 
@@ -68,7 +71,7 @@ where
   NT: Ord,
 {
   fn eq(&self, other: &Self) -> bool {
-    self.prod == other.prod
+    self.prod == other.prod && self.index == other.index
   }
 }
 
-- 
2.43.0


From ef7aa85018fad3bcb1f4b354aa8071b9b5df6b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 02/14] fix: reject a token that no Earley state accepts

parse returned None only at the end of the input; a token that nothing
was waiting for ran into the assertion in close_state.
---
 src/parsers/earley.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/earley.rs b/src/parsers/earley.rs
index c7a1fa2..71f1cda 100644
--- a/src/parsers/earley.rs
+++ b/src/parsers/earley.rs
@@ -77,6 +77,10 @@ where
 
   for token in tokens {
     let mut new_state = states.last().unwrap().shift(tree_handle, &token);
+    if new_state.is_empty() {
+      // No state accepts this token.
+      return None;
+    }
 
     close_state(grammar, tree_handle, &states, &mut new_state);
 
-- 
2.43.0


From 0b2533fe65cc893df41bd12fa5e47d0974b04696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 03/14] fix: do not mix the elements of differently divided
 Earley states

States for the same production over the same part of the input were
merged element by element even if they divided that part differently.
The resulting nodes combined elements of different divisions, which are
no derivations of the input.
---
 src/parsers/earley/state.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parsers/earley/state.rs b/src/parsers/earley/state.rs
index b6e6a5d..85d9fae 100644
--- a/src/parsers/earley/state.rs
+++ b/src/parsers/earley/state.rs
@@ -39,6 +39,10 @@ struct EarleyStateKey<'a, T, NT, AK, AV> {
     StartActionValue<AV>,
   >,
   origin_index: usize,
+  /// The indexes at which the nonterminals that were passed over start. States
+  /// that cover the same input, but divide it differently between their
+  /// elements, are kept apart, as their elements can not be freely combined.
+  splits: Vector<usize>,
 }
 
 impl<'a, T, NT, AK, AV> EarleyStateKey<'a, T, NT, AK, AV>
@@ -82,6 +86,7 @@ impl<'a, T, NT, AK, AV, V> EarleyState<'a, T, NT, AK, AV, V> {
       key: EarleyStateKey {
         prod_state: ProdState::from_start(prod),
         origin_index: index,
+        splits: Vector::new(),
       },
       value: Vector::new(),
     }
@@ -130,6 +135,7 @@ where
         key: EarleyStateKey {
           prod_state: ps,
           origin_index: self.key.origin_index,
+          splits: self.key.splits.clone(),
         },
         value: self.create_next_value(
           tree_handle
@@ -162,6 +168,7 @@ where
         key: EarleyStateKey {
           prod_state: ProdState::from_start(p),
           origin_index: prev_states.len(),
+          splits: Vector::new(),
         },
         value: Vector::new(),
       })
@@ -197,6 +204,11 @@ where
           key: EarleyStateKey {
             prod_state: ps,
             origin_index: st.key.origin_index,
+            splits: {
+              let mut splits = st.key.splits.clone();
+              splits.push_back(self.key.origin_index);
+              splits
+            },
           },
           value: st.create_next_value(tree_handle.make_branch_node(
             self.prod_state().action_key().as_base().unwrap().clone(),
-- 
2.43.0


From 3a550c3d77bfa342b47e71f4fcd14d0cfe34ceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 04/14] fix: report nonterminals without rules instead of
 panicking

Checking a grammar with a used nonterminal or start symbol that has no
rule panicked while looking for unreachable nonterminals, before the
missing rule could be reported.
---
 src/grammar/base.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index f299357..085bc6b 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -424,6 +424,7 @@ where
   fn nonterminals_without_rules(&self) -> BTreeSet<&NT> {
     self
       .get_nonterminals()
+      .chain(std::iter::once(&self.start_symbol))
       .filter(move |nt| !self.rule_set.contains_key(nt))
       .collect()
   }
@@ -440,8 +441,9 @@ where
   fn reachable_nonterms(&self) -> BTreeSet<&NT> {
     breadth_first_search(std::iter::once(&self.start_symbol), |nt| {
       self
-        .get_rule(nt)
-        .prods()
+        .try_get_rule(nt)
+        .into_iter()
+        .flat_map(|r| r.prods())
         .flat_map(|p| p.elements())
         .filter_map(|e| e.as_nonterm())
         .collect::<BTreeSet<_>>()
-- 
2.43.0


From 6857eaa30632774ad4fd41d504587ebe68b3e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 05/14] fix: include the initial elements in breadth first
 searches

They were only included when found again, and then expanded twice. This
made grammars reject a start symbol that is used by a nonterminal that is
not reachable.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3d8c999..c181696 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -160,7 +160,7 @@ where
 {
   let mut next_set = BTreeSet::new();
   let mut curr_set: BTreeSet<_> = initial.into_iter().collect();
-  let mut seen_set = next_set.clone();
+  let mut seen_set = curr_set.clone();
 
   while !curr_set.is_empty() {
     for next_item in &curr_set {
-- 
2.43.0


From 8089bc44ec90a7a00234f7203ffe986c5001d670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 06/14] fix: make apply_fixed_point terminate

The set of keys to process was never updated, so that the function never
returned unless the map was empty.
---
 src/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index c181696..0eda5c0 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -372,7 +372,7 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
 ) where
   K: Clone + Ord,
 {
-  let currs = target.keys().cloned().collect::<BTreeSet<_>>();
+  let mut currs = target.keys().cloned().collect::<BTreeSet<_>>();
   let mut nexts = BTreeSet::new();
 
   while !currs.is_empty() {
@@ -395,5 +395,7 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
         }
       }
     }
+
+    currs = std::mem::take(&mut nexts);
   }
 }
-- 
2.43.0


From 9a871562ef28c2a32448f149efa8fd636276ea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 07/14] fix: let VecTokenStream return its tokens

The bounds check was inverted: reading a stream that is not at its end
panicked.
---
 src/parsers/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 38b95f5..a72b8ed 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -58,7 +58,7 @@ where
   T: Clone,
 {
   fn next(&self) -> Option<(Token<K, T>, Self)> {
-    if self.tokens.len() < self.position {
+    if self.position < self.tokens.len() {
       Some((
         self.tokens[self.position].clone(),
         VecTokenStream {
-- 
2.43.0


From f3b48968c64208a6b718d4c6f298cf0b12a78cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 08/14] fix: do not report a failed pass as a recursive loop

A pass that failed stayed marked as in process, so asking for it again
panicked with a recursive loop instead of reporting the error.
---
 src/grammar/passes/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/grammar/passes/mod.rs b/src/grammar/passes/mod.rs
index 3b49a86..60d99f3 100644
--- a/src/grammar/passes/mod.rs
+++ b/src/grammar/passes/mod.rs
@@ -109,9 +109,18 @@ impl<'a, T, NT, AK, AV> PassContext<'a, T, NT, AK, AV> {
         let mut guard = self.passes.borrow_mut();
         guard.insert(pass_type, Rc::new(NoCurrentValue));
       }
-      let value = P::run_pass(self)?;
+      let result = P::run_pass(self);
       let mut guard = self.passes.borrow_mut();
-      guard.insert(pass_type, Rc::new(value));
+      match result {
+        Ok(value) => {
+          guard.insert(pass_type, Rc::new(value));
+        }
+        Err(err) => {
+          // The pass is no longer in process.
+          guard.remove(&pass_type);
+          return Err(err);
+        }
+      }
     };
 
     let any_pass_ref = {
-- 
2.43.0


From 8b055c1850808bb08beaeb2d6d55baaf1cdcf4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 09/14] fix: keep the nonempty variants of nullable productions

transform_to_nonnull dropped nullable productions as a whole instead of
only their empty variant, in contradiction to its documentation, and the
resulting grammar generated too little or could not be built.
---
 src/grammar/transform/nonnull.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar/transform/nonnull.rs b/src/grammar/transform/nonnull.rs
index cb2a15b..94dd382 100644
--- a/src/grammar/transform/nonnull.rs
+++ b/src/grammar/transform/nonnull.rs
@@ -123,10 +123,6 @@ where
     for (nt, rule) in g.rule_set() {
       g_builder.add_rule(nt.clone(), |r_builder| {
         for prod in rule.prods() {
-          if nullable.is_prod_nullable(&prod) {
-            continue;
-          }
-
           build_nonnull_prods(nullable.get_nullable_info(), &prod, r_builder);
         }
       });
@@ -202,6 +198,11 @@ fn build_nonnull_prods<T, NT, AK, AV>(
   }
 
   for curr_build_state in curr_build_states {
+    if curr_build_state.elems.is_empty() {
+      // Productions that are empty after the transformation are excluded.
+      continue;
+    }
+
     let prev_action_value = prod.action_value();
 
     let new_action_key = ActionKey {
-- 
2.43.0


From 083c9a97e2a9e4106e422835aac042c043739f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 10/14] fix: look through nullable nonterminals when computing
 follow sets

Only the element directly after a nonterminal was considered, so that
terminals after nullable nonterminals were missing, and a nonterminal
that derives nothing but the empty sequence caused a panic.
---
 src/grammar/passes/follows.rs | 43 +++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/grammar/passes/follows.rs b/src/grammar/passes/follows.rs
index d560aca..ba82196 100644
--- a/src/grammar/passes/follows.rs
+++ b/src/grammar/passes/follows.rs
@@ -4,6 +4,7 @@ use crate::utils::{change_iter, change_loop, WasChanged};
 use crate::{grammar::Elem, utils::CollectMap};
 
 use super::firsts::{Firsts, FirstsError};
+use super::nullable::Nullable;
 use super::Pass;
 
 #[derive(thiserror::Error, Debug)]
@@ -28,6 +29,8 @@ where
     let gram = pass_map.grammar();
 
     let firsts = pass_map.get_pass::<Firsts<T, NT>>()?;
+    let nullables =
+      pass_map.get_pass::<Nullable<NT, AK>>().map_err(FirstsError::from)?;
 
     let mut follows = CollectMap::new();
 
@@ -35,20 +38,36 @@ where
       change_iter(gram.prods(), |prod| {
         let mut changed = WasChanged::Unchanged;
         let elems = prod.elements().collect::<Vec<_>>();
-        for elem_pair in elems.windows(2) {
-          if let Elem::NonTerm(first_nt) = elem_pair[0] {
-            match elem_pair[1] {
-              Elem::Term(t) => changed.merge(follows.insert(first_nt, t)),
-              Elem::NonTerm(second_nt) => changed.merge(
-                follows
-                  .insert_iter(first_nt, firsts.get(second_nt).unwrap().iter()),
-              ),
+        for (i, elem) in elems.iter().enumerate() {
+          if let Elem::NonTerm(first_nt) = elem {
+            // Whether everything between first_nt and the end is nullable.
+            let mut reaches_end = true;
+            for next_elem in &elems[i + 1..] {
+              match next_elem {
+                Elem::Term(t) => {
+                  changed.merge(follows.insert(first_nt, t));
+                  reaches_end = false;
+                }
+                Elem::NonTerm(next_nt) => {
+                  if let Some(next_firsts) = firsts.get(next_nt) {
+                    changed.merge(
+                      follows.insert_iter(first_nt, next_firsts.iter()),
+                    );
+                  }
+                  reaches_end = nullables.is_nullable(next_nt);
+                }
+              }
+
+              if !reaches_end {
+                break;
+              }
             }
-          }
-        }
 
-        if let Some(Elem::NonTerm(last_nt)) = elems.last() {
-          changed.merge(follows.insert_from_key_set(last_nt, prod.head()));
+            if reaches_end {
+              changed
+                .merge(follows.insert_from_key_set(first_nt, prod.head()));
+            }
+          }
         }
 
         changed
-- 
2.43.0


From d4ce781d5d27feade3a0fbdf784d9c45880e4c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 11/14] fix: do not nest read locks of a tree

Checking that objects belong to the same tree took a second read lock
while holding the first one. With a writer waiting in between, both wait
for each other. Consuming an iterator that creates nodes while holding
the lock blocked even a single thread.
---
 src/parsers/tree.rs | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 85963f7..17b71be 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -177,10 +177,6 @@ where
     let node_data = self.get_node_mut(node_index);
     WasChanged::from_changed(node_data.alternatives.insert(alt_index))
   }
-
-  pub fn is_same(&self, other: &Self) -> bool {
-    std::ptr::eq(self, other)
-  }
 }
 
 /// The owning object of an AST tree.
@@ -327,16 +323,15 @@ where
     action: AK,
     nodes: impl IntoIterator<Item = Node<'a, T, AK, V>>,
   ) -> Alternative<T, AK, V> {
-    let node_indexes = self.with(|inner| {
-      nodes
-        .into_iter()
-        .inspect(|n| {
-          // Check that all nodes are coming from the same inner instance.
-          assert!(n.inner.with(|n_inner| { inner.is_same(n_inner) }));
-        })
-        .map(|n| n.index)
-        .collect()
-    });
+    // The lock must not be held here, as it may be needed to produce the nodes.
+    let node_indexes = nodes
+      .into_iter()
+      .inspect(|n| {
+        // Check that all nodes are coming from the same inner instance.
+        assert!(self.is_same(&n.inner));
+      })
+      .map(|n| n.index)
+      .collect();
 
     self.make_alt(NodeContentInner::Branch(BranchData {
       action,
@@ -345,9 +340,7 @@ where
   }
 
   pub fn is_same(&self, other: &Self) -> bool {
-    self.with(|self_inner| {
-      other.with(|other_inner| self_inner.is_same(other_inner))
-    })
+    std::ptr::eq(self.0, other.0)
   }
 }
 
-- 
2.43.0


From bc7a96c4dfd209b2c1646ec4388696c759977f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 12/14] fix: show the root node in DOT output

The node that is rendered, and its edges, were left out unless it was
reachable from itself.
---
 src/parsers/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 17b71be..6eb7008 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -588,6 +588,7 @@ where
   let mut curr = BTreeSet::new();
   let mut next = BTreeSet::new();
 
+  seen.insert(DotNode::Node(node.index));
   curr.insert(DotNode::Node(node.index));
 
   while !curr.is_empty() {
-- 
2.43.0


From faebab465194292e47b989378798c9a75d35cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 13/14] fix: look through nullable nonterminals when computing
 lookaheads

Only the element directly after a nonterminal was considered, and one
without a first set caused a panic.
---
 src/parsers/lalr.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/parsers/lalr.rs b/src/parsers/lalr.rs
index 47cc181..74d7336 100644
--- a/src/parsers/lalr.rs
+++ b/src/parsers/lalr.rs
@@ -2,7 +2,7 @@ use std::collections::{btree_map, BTreeMap, BTreeSet};
 
 use crate::{
   grammar::{
-    passes::{firsts::Firsts, PassContext},
+    passes::{firsts::Firsts, nullable::Nullable, PassContext},
     Elem,
   },
   state::ProdState,
@@ -84,17 +84,32 @@ where
     items: impl IntoIterator<Item = (ProdState<'a, T, NT, AK, AV>, BTreeSet<T>)>,
   ) -> anyhow::Result<Self> {
     let firsts = passes.get_pass::<Firsts<T, NT>>()?;
+    let nullables = passes.get_pass::<Nullable<NT, AK>>()?;
     let mut prods = CollectMap::from_seed(items.into_iter().collect());
 
     change_loop(|| {
       let mut new_expansions = Vec::new();
       for (prod, la) in prods.iter() {
         if let Some(Elem::NonTerm(nt)) = prod.next_elem() {
-          let new_la = match prod.offset_elem(1) {
-            Some(Elem::NonTerm(nt)) => firsts.get(nt).unwrap().clone(),
-            Some(Elem::Term(t)) => std::iter::once(t.clone()).collect(),
-            None => la.clone(),
-          };
+          let mut new_la = BTreeSet::new();
+          for i in 1.. {
+            match prod.offset_elem(i) {
+              Some(Elem::NonTerm(nt)) => {
+                new_la.extend(firsts.get(nt).into_iter().flatten().cloned());
+                if !nullables.is_nullable(nt) {
+                  break;
+                }
+              }
+              Some(Elem::Term(t)) => {
+                new_la.insert(t.clone());
+                break;
+              }
+              None => {
+                new_la.extend(la.iter().cloned());
+                break;
+              }
+            }
+          }
 
           new_expansions.push((nt, new_la));
         }
-- 
2.43.0


From ff63bd963fa1f0166077688d804a0a396aea5e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 14/14] Add accessors for conformance checks

Each is compiled only with --cfg bongo_verif="NAME".
---
 src/grammar/passes/follows.rs | 11 +++++++++
 src/parsers/lalr.rs           | 46 +++++++++++++++++++++++++++++++++++
 src/utils/buffer.rs           |  8 ++++++
 src/utils/mergeables.rs       |  8 ++++++
 4 files changed, 73 insertions(+)

diff --git a/src/grammar/passes/follows.rs b/src/grammar/passes/follows.rs
index ba82196..05651a3 100644
--- a/src/grammar/passes/follows.rs
+++ b/src/grammar/passes/follows.rs
@@ -15,6 +15,17 @@ pub enum FollowsError {
 
 pub struct Follows<T, NT>(BTreeMap<NT, BTreeSet<T>>);
 
+#[cfg(bongo_verif = "follows")]
+impl<T, NT> Follows<T, NT>
+where
+  NT: Ord,
+{
+  /// The follow set of a nonterminal, for conformance checks.
+  pub fn verif_get(&self, nt: &NT) -> Option<&BTreeSet<T>> {
+    self.0.get(nt)
+  }
+}
+
 impl<T, NT, AK, AV> Pass<T, NT, AK, AV> for Follows<T, NT>
 where
   T: Ord + Clone + 'static,
diff --git a/src/parsers/lalr.rs b/src/parsers/lalr.rs
index 74d7336..fb84822 100644
--- a/src/parsers/lalr.rs
+++ b/src/parsers/lalr.rs
@@ -161,3 +161,49 @@ where
     })
   }
 }
+
+/// Entry point to the item sets for conformance checks.
+#[cfg(bongo_verif = "lr")]
+pub struct VerifParseState<'a, T, NT, AK, AV>(ParseState<'a, T, NT, AK, AV>);
+
+#[cfg(bongo_verif = "lr")]
+impl<'a, T, NT, AK, AV> VerifParseState<'a, T, NT, AK, AV>
+where
+  T: Ord + Clone + 'static,
+  NT: Ord + Clone + 'static,
+  AK: Ord + Clone + 'static,
+{
+  /// The closure of the given items.
+  pub fn new(
+    passes: &PassContext<'a, T, NT, AK, AV>,
+    items: impl IntoIterator<Item = (ProdState<'a, T, NT, AK, AV>, BTreeSet<T>)>,
+  ) -> anyhow::Result<Self> {
+    ParseState::from_prod_lookahead(passes, items).map(VerifParseState)
+  }
+
+  /// The items with their lookaheads.
+  pub fn items(
+    &self,
+  ) -> &BTreeMap<ProdState<'a, T, NT, AK, AV>, BTreeSet<T>> {
+    &self.0.prods
+  }
+
+  /// See `ParseState::reducable_actions`.
+  pub fn reducable(&self) -> Vec<&AK> {
+    self.0.reducable_actions().collect()
+  }
+
+  /// See `ParseState::shift_actions`.
+  pub fn shift(
+    &self,
+    passes: &PassContext<'a, T, NT, AK, AV>,
+  ) -> anyhow::Result<BTreeMap<T, Self>> {
+    let next = self.0.shift_actions(passes)?;
+    Ok(
+      next
+        .into_iter()
+        .map(|(t, s)| (t, VerifParseState(s)))
+        .collect(),
+    )
+  }
+}
diff --git a/src/utils/buffer.rs b/src/utils/buffer.rs
index 1a64d82..fdf6c88 100644
--- a/src/utils/buffer.rs
+++ b/src/utils/buffer.rs
@@ -278,6 +278,14 @@ impl TextPos {
   }
 }
 
+#[cfg(bongo_verif = "textpos")]
+impl TextPos {
+  /// Line, column and byte offset, for conformance checks.
+  pub fn verif_parts(&self) -> (usize, usize, usize) {
+    (self.line(), self.column(), self.byte_offset())
+  }
+}
+
 #[cfg(test)]
 mod test {
   use super::*;
diff --git a/src/utils/mergeables.rs b/src/utils/mergeables.rs
index 182ad05..7be44f6 100644
--- a/src/utils/mergeables.rs
+++ b/src/utils/mergeables.rs
@@ -24,6 +24,14 @@ impl<K, V> Value<K, V> {
   }
 }
 
+#[cfg(bongo_verif = "merge")]
+impl<K, V> Value<K, V> {
+  /// Creates an entry, for conformance checks.
+  pub fn verif_new(key: K, value: V) -> Self {
+    Value { key, value }
+  }
+}
+
 #[derive(Debug)]
 pub struct ValueRef<'a, K, V> {
   key: &'a K,
-- 
2.43.0

