From c7568858f63437bb39ea270c529bfc9a1575b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 01/39] fix: gt is the converse of lt, not its negation

The axiom defining gt was negated, so gt(a, b) held exactly when b < a did
not (in particular gt(a, a) was true).
---
 crates/cryptovampire/src/problem/general_assertions/order.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/order.rs b/crates/cryptovampire/src/problem/general_assertions/order.rs
index fa64abd..d84f224 100644
--- a/crates/cryptovampire/src/problem/general_assertions/order.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/order.rs
@@ -63,7 +63,7 @@ pub fn generate<'bump>(
                     (leq.f([t2.into(), pred.apply([t1])]) | leq.f([t1, t2]))}), // ax11
             // other
             mforall!(a!0:step, b!1:step;
-                {!meq(gt.f([a, b]), lt.f([b, a]))}),
+                {meq(gt.f([a, b]), lt.f([b, a]))}),
         ]
         .into_iter()
         .map(Axiom::theory), // .chain(pbl.protocol().ordering().iter().cloned().map(Axiom::base)),
-- 
2.43.0


From 3b84b80fb6ff34e359245389df7152a95314404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 02/39] fix: exec(s) requires the condition of every step up to
 s

The direct definition of exec quantified over the earlier steps but tested the
condition of s itself, which made exec(s) equivalent to cond(s).
---
 .../cryptovampire/src/problem/crypto_assumptions/unfolding.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs b/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
index 21db0b3..f7227d1 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
@@ -118,7 +118,7 @@ impl<'bump> Unfolding<'bump> {
                 mforall!(s!1:step; {HAPPENS.f([s]) >>
                   meq(ev.eval(exec.f([s])),
                   mforall!(s2!2:step;
-                      {LESS_THAN_EQ_STEP.f([s2, s]) >> ev.eval(self.cond().f([s]))}))})
+                      {LESS_THAN_EQ_STEP.f([s2, s]) >> ev.eval(self.cond().f([s2]))}))})
             });
 
             chain!(
-- 
2.43.0


From b0ef9817e36a5206ba728945a25b146d48416445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:33 +0000
Subject: [PATCH 03/39] fix: a memory cell is only updated by steps that happen

All steps that do not happen are equal, so the unguarded update axioms forced
the right-hand sides of all their assignments to be equal, which can be
inconsistent as soon as two assigning steps do not happen.
---
 crates/cryptovampire/src/problem/crypto_assumptions/cell.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
index 8685f1d..fc981ea 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
@@ -8,7 +8,7 @@ use crate::{
     formula::{
         file_descriptior::{axioms::Axiom, declare::Declaration},
         formula,
-        function::builtin::PRED,
+        function::builtin::{HAPPENS, PRED},
         sort::builtins::STEP,
         variable::{from_usize, Variable},
     },
@@ -79,7 +79,8 @@ impl Cell {
                                 (
                                     formula::forall(
                                         bvars.clone(),
-                                        ands.shallow_copy() >> formula::meq(&cell_call, content),
+                                        (HAPPENS.f([&step_call]) & ands.shallow_copy())
+                                            >> formula::meq(&cell_call, content),
                                     ),
                                     formula::forall(bvars, !ands.shallow_copy()),
                                 )
-- 
2.43.0


From 3ab9f025b32b6cbd93882eba0c788166eecd24cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:46 +0000
Subject: [PATCH 04/39] fix: macro expansion no longer captures the variables
 of its arguments

The body of a macro (and of a step, for msg!/cond!) was given the variable ids
0, 1, ... whatever the ids in use where it is expanded. A quantifier in the body
could then capture a variable of an argument.
---
 .../src/parser/parser/parsable_trait.rs       | 24 ++++++++++++----
 .../parser/parsing_environement/cache/step.rs | 28 +++++++++++++++++--
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 608d474..24236ef 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -107,6 +107,11 @@ pub trait Parsable<'bump, 'str> {
     ) -> crate::Result<Self::R>;
 }
 
+/// The smallest id above the ones of all the variables of `bvars`
+fn next_var_id<S>(bvars: &[(S, VarProxy<'_>)]) -> uvar {
+    bvars.iter().map(|(_, v)| v.id + 1).max().unwrap_or(0)
+}
+
 impl<'a, 'bump, S> Parsable<'bump, 'a> for ast::LetIn<'a, S>
 where
     S: Pstr,
@@ -287,7 +292,7 @@ where
         }
 
         let var = Variable {
-            id: from_usize(bvars.len()),
+            id: next_var_id(bvars),
             sort,
         };
 
@@ -598,7 +603,13 @@ where
                     .unknown_symbol(app, &"step", app.name())
                     .debug_continue()?;
 
-                let mut nbvars = step_cache.args_vars_with_input().map_into().collect();
+                // stay clear of the caller's variables, so that the binders of
+                // the step don't capture those of `args`
+                let offset = next_var_id(bvars);
+                let mut nbvars = step_cache
+                    .args_vars_with_input_from(offset)
+                    .map_into()
+                    .collect();
 
                 let (to_parse, _) = match inner {
                     ast::InnerAppMacro::Msg(_) => (&step_cache.ast.message, MESSAGE.as_sort()),
@@ -612,7 +623,7 @@ where
 
                 Ok(term
                     .owned_into_inner()
-                    .apply_substitution2(&step_cache.substitution(args.as_ref())))
+                    .apply_substitution2(&step_cache.substitution_from(offset, args.as_ref())))
             }
             ast::InnerAppMacro::Other { name, args } => {
                 let mmacro = env
@@ -656,12 +667,15 @@ where
                     )
                 };
 
+                // stay clear of the caller's variables, so that the binders of
+                // the macro don't capture those of `args`
+                let offset = next_var_id(bvars);
                 let term = {
                     let mut bvars = mmacro
                         .args
                         .iter()
                         .zip(mmacro.args_name.iter())
-                        .zip(0..)
+                        .zip(offset..)
                         .map(|((var_sort, var_name), id)| {
                             (var_name.clone(), Variable::new(id, *var_sort).into())
                         })
@@ -674,7 +688,7 @@ where
 
                 Ok(term
                     .owned_into_inner()
-                    .apply_substitution(0..from_usize(mmacro.args.len()), &args))
+                    .apply_substitution(offset..offset + from_usize(mmacro.args.len()), &args))
             }
         }
     }
diff --git a/crates/cryptovampire/src/parser/parser/parsing_environement/cache/step.rs b/crates/cryptovampire/src/parser/parser/parsing_environement/cache/step.rs
index 9d79e80..a851a97 100644
--- a/crates/cryptovampire/src/parser/parser/parsing_environement/cache/step.rs
+++ b/crates/cryptovampire/src/parser/parser/parsing_environement/cache/step.rs
@@ -46,6 +46,21 @@ where
         self.args_vars().chain([self.input_named_var()])
     }
 
+    /// [Self::args_vars_with_input] with ids starting at `offset`
+    pub fn args_vars_with_input_from(
+        &self,
+        offset: uvar,
+    ) -> impl Iterator<Item = NamedVariable<'bump, S>> + '_ {
+        self.args_vars_with_input()
+            .map(move |NamedVariable { name, variable }| NamedVariable {
+                name,
+                variable: Variable {
+                    id: variable.id + offset,
+                    ..variable
+                },
+            })
+    }
+
     /// the special `in` variable
     pub fn input_named_var(&self) -> NamedVariable<'bump, S> {
         NamedVariable {
@@ -64,10 +79,19 @@ where
         }
     }
 
-    pub fn substitution(&self, args: &[ARichFormula<'bump>]) -> FrozenSubstF<'_, 'bump> {
+    /// maps the variables of [Self::args_vars_with_input_from] to `args` and the
+    /// matching input
+    pub fn substitution_from(
+        &self,
+        offset: uvar,
+        args: &[ARichFormula<'bump>],
+    ) -> FrozenSubstF<'_, 'bump> {
         assert_eq!(args.len(), self.args.len());
 
-        let vars = self.args_vars_with_input().map(|v| v.id()).collect();
+        let vars = self
+            .args_vars_with_input_from(offset)
+            .map(|v| v.id())
+            .collect();
         let formulas = args
             .iter()
             .cloned()
-- 
2.43.0


From 74184d35f80ffe9478f8d232d4d6c86afec79d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:54 +0000
Subject: [PATCH 05/39] fix: lexical scoping of variables

A shadowed name resolved to the outermost binding instead of the innermost one,
and the variable of a let was visible in its own definition and after its body.
---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 24236ef..a9109d8 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -135,9 +135,14 @@ where
             t1,
             t2,
         } = self;
+        // `var` is only visible in `t2`
+        let bn = bvars.len();
         let var = var.parse(env, bvars, state, None)?;
+        let binding = bvars.split_off(bn);
         let t1 = t1.parse(env, bvars, state, Some(var.sort().into()))?;
+        bvars.extend(binding);
         let t2 = t2.parse(env, bvars, state, expected_sort)?;
+        bvars.truncate(bn);
 
         Ok(t2.apply_substitution2(&OneVarSubstF::new(var, t1)))
     }
@@ -403,6 +408,7 @@ where
                 // check if it is a variable
                 bvars
                     .iter()
+                    .rev() // innermost binding first
                     .find(|(s, _)| s == content)
                     .map(|(_, v)| {
                         let VarProxy { id, sort } = v;
-- 
2.43.0


From 785405dd4c25f23a1f801a720b967443b57bc742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:24 +0000
Subject: [PATCH 06/39] fix: negations and quantifiers inside steps are fully
 defined

The symbols standing for not(..), forall and exists inside conditions were only
constrained in one direction (unlike every other connective), so the condition
of a step using them was not determined: it could always be taken to be false.
---
 .../problem/general_assertions/evaluate.rs    | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
index 6db6675..1a8d095 100644
--- a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
@@ -231,8 +231,8 @@ fn generate_connectives<'bump>(
         }))),
         Connective::BaseConnective(BaseConnective::Not) => {
             assertions.push(Axiom::base(mforall!(a!0:cond; {
-                pbl.evaluator().eval(function.apply([a])) >>
-                    !pbl.evaluator().eval(a)
+                meq(pbl.evaluator().eval(function.apply([a])),
+                    !pbl.evaluator().eval(a))
             })))
         }
         Connective::BaseConnective(c) => {
@@ -265,20 +265,24 @@ pub fn generate_quantifier<'bump>(
     match q.inner() {
         InnerQuantifier::Forall { content } => {
             assertions.push(Axiom::base(mforall!(q.free_variables.iter().cloned(), {
-                pbl.evaluator()
-                    .eval(function.apply(q.free_variables.iter().map(|v| v.into_formula())))
-                    >> mforall!(q.bound_variables.iter().cloned(), {
+                meq(
+                    pbl.evaluator()
+                        .eval(function.apply(q.free_variables.iter().map(|v| v.into_formula()))),
+                    mforall!(q.bound_variables.iter().cloned(), {
                         pbl.evaluator().eval(content)
-                    })
+                    }),
+                )
             })))
         }
         InnerQuantifier::Exists { content } => {
             assertions.push(Axiom::base(mforall!(q.free_variables.iter().cloned(), {
-                pbl.evaluator()
-                    .eval(function.apply(q.free_variables.iter().map(|v| v.into_formula())))
-                    >> mexists!(q.bound_variables.iter().cloned(), {
+                meq(
+                    pbl.evaluator()
+                        .eval(function.apply(q.free_variables.iter().map(|v| v.into_formula()))),
+                    mexists!(q.bound_variables.iter().cloned(), {
                         pbl.evaluator().eval(content)
-                    })
+                    }),
+                )
             })))
         }
         InnerQuantifier::FindSuchThat {
-- 
2.43.0


From 152bb8b70d52dccf0e9d45e0d76077efd39811e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:46 +0000
Subject: [PATCH 07/39] fix: <=> in a condition no longer recurses forever

An equivalence of two conditions was rewritten to the conjunction of itself,
overflowing the stack.
---
 .../cryptovampire/src/parser/parser/parsable_trait.rs  | 10 ++++++++++
 .../parser/parser/parsable_trait/cached_builtins.rs    |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index a9109d8..d23c663 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -788,6 +788,16 @@ where
                     &self.terms,
                 )
                 .debug_continue(),
+                Realm::Symbolic if self.terms.len() == 2 => parse_application(
+                    env,
+                    &self.span,
+                    state,
+                    bvars,
+                    expected_sort,
+                    &IFF_TA_CACHE(),
+                    &self.terms,
+                )
+                .debug_continue(),
                 Realm::Symbolic => Self {
                     operation: ast::Operation::And,
                     terms: as_pair_of_term(
diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs b/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs
index 1e5188c..000e76f 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs
@@ -27,6 +27,12 @@ pub(crate) fn EQUALITY_TA_CACHE<'a, 'str, 'bump, S>() -> MOw<'a, FunctionCache<'
     MOw::Owned((*EQUALITY_TA).into())
 }
 
+// #[dynamic]
+#[allow(non_snake_case)]
+pub(crate) fn IFF_TA_CACHE<'a, 'str, 'bump, S>() -> MOw<'a, FunctionCache<'str, 'bump, S>> {
+    MOw::Owned((*IFF_TA).into())
+}
+
 // #[dynamic]
 // #[allow(non_snake_case)]
 // pub(crate) fn IFF_CACHE<'a, 'str, 'bump>() -> MOw<'a, FunctionCache<'str, 'bump>> {
-- 
2.43.0


From 14db39b634667d4b1ba1d6da0e325f7643a24c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:05 +0000
Subject: [PATCH 08/39] fix: subterms of the arguments of a lifted
 find/quantifier are subterms of it

The axiom describing the names occurring in a lifted 'try find'/quantifier
forgot its message arguments (e.g., the input of the step).
---
 crates/cryptovampire/src/subterm/mod.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index 8c29c35..26615b8 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -28,7 +28,9 @@ use crate::{
     formula::{
         file_descriptior::declare::{self, Declaration},
         formula::{self, exists, forall, meq, ARichFormula},
-        function::{self, builtin::TRUE, Function, InnerFunction},
+        function::{
+            self, builtin::TRUE, inner::term_algebra::TermAlgebra, Function, InnerFunction,
+        },
         manipulation::Unifier,
         sort::Sort,
         utils::formula_expander::{UnfoldFlags, UnfoldingState},
@@ -280,6 +282,24 @@ where
                 keep_guard,
             );
             trace!("{}:{}:{}", file!(), line!(), column!());
+
+            // the arguments of a lifted quantifier (e.g., the `in` it depends on) are
+            // variables for the search above, their own subterms must be kept
+            let args = if let InnerFunction::TermAlgebra(TermAlgebra::Quantifier(_)) = fun.as_inner()
+            {
+                vars.iter()
+                    .filter(|v| v.sort().is_term_algebra())
+                    .map(|v| self.f_a(&realm, x_f.clone(), v.into_aformula()))
+                    .collect_vec()
+            } else {
+                vec![]
+            };
+            let f = if args.is_empty() {
+                f
+            } else {
+                f | formula::ors(args)
+            };
+
             forall(
                 vars.into_iter().chain(std::iter::once(x)),
                 self.f_a(&realm, x_f.clone(), f_f) >> f,
-- 
2.43.0


From 5e4cc37740c46152bde86b0fcf8b5f900b84acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:42 +0000
Subject: [PATCH 09/39] fix: the dependency graph follows inputs through cells
 and quantifiers

The outgoing edges of the input node were the edges *to* an input, and
whatever a cell reached through an input or a lifted quantifier was lost:
the nonce axioms missed the names an attacker learns that way.
---
 .../src/problem/cell_dependancies/graph.rs    | 36 +++++---------
 .../graph/process_functions.rs                | 49 +++++++------------
 2 files changed, 30 insertions(+), 55 deletions(-)

diff --git a/crates/cryptovampire/src/problem/cell_dependancies/graph.rs b/crates/cryptovampire/src/problem/cell_dependancies/graph.rs
index fbe7429..de3ed52 100644
--- a/crates/cryptovampire/src/problem/cell_dependancies/graph.rs
+++ b/crates/cryptovampire/src/problem/cell_dependancies/graph.rs
@@ -47,7 +47,8 @@ pub struct DependancyGraph<'bump> {
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Default)]
 struct InputNode {
-    pub edges_starts: usize,
+    /// an input depends on whatever the messages and the conditions depend on
+    pub edges: Vec<usize>,
 }
 
 /// A non input node in the graph
@@ -128,36 +129,23 @@ impl<'bump> DependancyGraph<'bump> {
             .collect_vec();
 
         let mut edges = Vec::new();
-        let mut input_edges = Vec::new();
 
         {
             let mut pile = Vec::new();
-            process_functions::process_steps(
-                &mut pile,
-                &steps,
-                &cells,
-                &mut input_edges,
-                &mut edges,
-            );
-            process_functions::process_cell(
-                &mut pile,
-                &steps,
-                &cells,
-                &mut input_edges,
-                &mut edges,
-            );
+            process_functions::process_steps(&mut pile, &steps, &cells, &mut edges);
+            process_functions::process_cell(&mut pile, &steps, &cells, &mut edges);
         }
 
-        let input = InputNode {
-            edges_starts: edges.len(),
-        };
+        let mut input = InputNode::default();
 
         for (i, Edges { from, .. }) in edges.iter().enumerate() {
-            if let FromNode::CellCall(InnerCellCall { cell_idx: cell, .. }) = from {
-                cells[*cell].edges.push(i)
+            match from {
+                FromNode::CellCall(InnerCellCall { cell_idx: cell, .. }) => {
+                    cells[*cell].edges.push(i)
+                }
+                FromNode::Message { .. } | FromNode::Condition { .. } => input.edges.push(i),
             }
         }
-        edges.extend(input_edges);
         DependancyGraph {
             cells,
             edges,
@@ -190,8 +178,6 @@ impl<'bump> DependancyGraph<'bump> {
                 .collect(),
         };
 
-        let input_edges = (self.input.edges_starts..self.edges.len()).collect_vec();
-
         while let Some(next) = to_visit_idx.pop() {
             if visited[next] {
                 continue;
@@ -203,7 +189,7 @@ impl<'bump> DependancyGraph<'bump> {
                 self.cells
                     .get(next)
                     .map(|c| c.edges.as_slice())
-                    .unwrap_or(input_edges.as_slice()) // if out of bound, it's an input
+                    .unwrap_or(self.input.edges.as_slice()) // if out of bound, it's an input
                     .iter()
                     .map(|ei| &self.edges[*ei])
                     .map(|edge| edge.to.get_cell_idx().unwrap_or(input_idx)), // .filter(|i| !visited[*i]),
diff --git a/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs b/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs
index 6c73b4d..2254046 100644
--- a/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs
+++ b/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs
@@ -33,23 +33,21 @@ use super::GlobNode;
 
 use crate::problem::step::Step;
 
-/// populate `input_edges` and `edges` using the content seen in the step definitions
+/// populate `edges` using the content seen in the step definitions
 ///
 /// ## arguments
 /// - `steps`: the steps of the protocol
 /// - `cells`: the cells of the protocol
-/// - `input_edges`: the edges to an input
-/// - `edges`: the other edges
+/// - `edges`: the edges
 pub(crate) fn process_steps<'bump>(
     pile: &mut Vec<Content<ToNode<'bump>, ARichFormula<'bump>, ()>>,
     steps: &Vec<Step<'bump>>,
     cells: &Vec<GlobNode<'bump>>,
-    input_edges: &mut Vec<Edges<'bump>>,
     edges: &mut Vec<Edges<'bump>>,
 ) {
     for step in steps {
-        populate_edges_steps(pile, cells, step, input_edges, edges, true);
-        populate_edges_steps(pile, cells, step, input_edges, edges, false);
+        populate_edges_steps(pile, cells, step, edges, true);
+        populate_edges_steps(pile, cells, step, edges, false);
     }
 }
 
@@ -62,7 +60,6 @@ fn populate_edges_steps<'bump>(
     pile: &mut Vec<Content<ToNode<'bump>, ARichFormula<'bump>, ()>>,
     cells: &Vec<GlobNode<'bump>>,
     step: &Step<'bump>,
-    input_edges: &mut Vec<Edges<'bump>>,
     edges: &mut Vec<Edges<'bump>>,
     in_cond: bool,
 ) {
@@ -84,17 +81,10 @@ fn populate_edges_steps<'bump>(
     .shallow_copy();
     iter.push_child(m, ());
 
-    // push to the to nodes to the relevant arrays
-    iter.for_each(|to_node| match &to_node {
-        ToNode::Input(_) => input_edges.push(Edges {
-            from: from.clone(),
-            to: to_node,
-        }),
-        ToNode::CellCall(_) => edges.push(Edges {
-            from: from.clone(),
-            to: to_node,
-        }),
-    })
+    edges.extend(iter.map(|to| Edges {
+        from: from.clone(),
+        to,
+    }))
 }
 
 /// Generate an interator of [ToNode] that looks
@@ -162,6 +152,12 @@ impl<'a, 'bump> FormulaIterator<ARichFormula<'bump>> for ToNodeIterator<'a, 'bum
                         }
                     };
                 }
+                // look at what the quantifier hides too
+                InnerFunction::TermAlgebra(TermAlgebra::Quantifier(q)) => {
+                    helper.extend_child_with_default(
+                        q.get_content_iter().chain(args.iter()).cloned(),
+                    );
+                }
                 InnerFunction::Step(_) => {
                     // let to_node = ToNode::Input(InputCall {
                     //     step: StepCall::General(current.clone()),
@@ -181,14 +177,13 @@ impl<'a, 'bump> FormulaIterator<ARichFormula<'bump>> for ToNodeIterator<'a, 'bum
     }
 }
 
-/// populate `input_edges` and `edges` using the content seen in the cell definitions
+/// populate `edges` using the content seen in the cell definitions
 ///
 /// The `pile` is used for efficiency
 pub(crate) fn process_cell<'bump>(
     pile: &mut Vec<Content<ToNode<'bump>, ARichFormula<'bump>, ()>>,
     _steps: &[Step<'bump>],
     cells: &Vec<GlobNode<'bump>>,
-    input_edges: &mut Vec<Edges<'bump>>,
     edges: &mut Vec<Edges<'bump>>,
 ) {
     // let mut pile = Vec::new();
@@ -209,16 +204,10 @@ pub(crate) fn process_cell<'bump>(
             let mut iter = RefPile::new(pile, ToNodeIterator { cells });
             iter.push_child(content.shallow_copy(), ());
 
-            iter.for_each(|to_node| match &to_node {
-                ToNode::Input(_) => input_edges.push(Edges {
-                    from: from.clone(),
-                    to: to_node,
-                }),
-                ToNode::CellCall(_) => edges.push(Edges {
-                    from: from.clone(),
-                    to: to_node,
-                }),
-            })
+            edges.extend(iter.map(|to| Edges {
+                from: from.clone(),
+                to,
+            }))
         }
     }
 }
-- 
2.43.0


From e7be3b27469d2cc6efe4b0156cf77b2ef85d2e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:45 +0000
Subject: [PATCH 10/39] fix: binding an if-then-else with let in a formula no
 longer panics

The bound term is used where a term of the sort of the variable is expected:
parse it as such.
---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index d23c663..fe781ab 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -139,7 +139,13 @@ where
         let bn = bvars.len();
         let var = var.parse(env, bvars, state, None)?;
         let binding = bvars.split_off(bn);
-        let t1 = t1.parse(env, bvars, state, Some(var.sort().into()))?;
+        // `t2` uses `var` as a term of its sort, so must be `t1`
+        let t1_realm = if var.sort().is_term_algebra() {
+            Realm::Symbolic
+        } else {
+            state.get_realm()
+        };
+        let t1 = t1.parse(env, bvars, &t1_realm, Some(var.sort().into()))?;
         bvars.extend(binding);
         let t2 = t2.parse(env, bvars, state, expected_sort)?;
         bvars.truncate(bn);
-- 
2.43.0


From d26ead09c4966e7a37d4d9a2baea1150cd7982c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:39 +0000
Subject: [PATCH 11/39] fix: a query or assert that is a bare predicate no
 longer uses undeclared eval$ symbols

---
 crates/cryptovampire/src/problem/problem/mod.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/crates/cryptovampire/src/problem/problem/mod.rs b/crates/cryptovampire/src/problem/problem/mod.rs
index e675c99..96a76f5 100644
--- a/crates/cryptovampire/src/problem/problem/mod.rs
+++ b/crates/cryptovampire/src/problem/problem/mod.rs
@@ -33,7 +33,7 @@ use crate::{
 
 use super::{
     crypto_assumptions::CryptoAssumption,
-    general_assertions::{self, assertion_preprocessor::propagate_evaluate, order},
+    general_assertions::{self, order},
     generator::Generator,
     protocol::Protocol,
 };
@@ -239,19 +239,13 @@ impl<'bump> Generator<'bump> for Problem<'bump> {
 
         trace!("[G]\t- user assertions...");
         assertions.push(Axiom::Comment("user asserts".into()));
-        assertions.extend(
-            self.assertions
-                .iter()
-                .cloned()
-                .map(|a| propagate_evaluate(a.as_ref(), &self.evaluator))
-                .map(Axiom::base),
-        );
+        assertions.extend(self.assertions.iter().cloned().map(Axiom::base));
         trace!("[G]\t\t[DONE]");
 
         trace!("[G]\t- query...");
         assertions.push(Axiom::Comment("query".into()));
         assertions.push(Axiom::Query {
-            formula: propagate_evaluate(self.query.as_ref(), &self.evaluator),
+            formula: self.query.clone(),
         });
 
         trace!("[G]\t\t[DONE]");
-- 
2.43.0


From 07102287d08413e62407cdec83aa45b299c78ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:31 +0000
Subject: [PATCH 12/39] fix: a protocol without names no longer uses an
 undeclared sort

---
 .../cryptovampire/src/problem/problem/mod.rs  | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/crates/cryptovampire/src/problem/problem/mod.rs b/crates/cryptovampire/src/problem/problem/mod.rs
index 96a76f5..378efa6 100644
--- a/crates/cryptovampire/src/problem/problem/mod.rs
+++ b/crates/cryptovampire/src/problem/problem/mod.rs
@@ -26,7 +26,10 @@ use crate::{
         function::{
             inner::evaluate::Evaluator, name_caster_collection::NameCasterCollection, Function,
         },
-        sort::{builtins::CONDITION, Sort},
+        sort::{
+            builtins::{CONDITION, NAME},
+            Sort,
+        },
         variable::{uvar, IntoVariableIter},
     },
 };
@@ -207,15 +210,22 @@ impl<'bump> Generator<'bump> for Problem<'bump> {
                 }
             }
 
-            declarations.push(Declaration::DataTypes(
-                datatypes
-                    .into_iter()
-                    .map(|(sort, constructor_destructors)| DataType {
-                        sort,
-                        constructor_destructors,
-                    })
-                    .collect(),
-            ));
+            // a datatype must have a constructor
+            if !datatypes.contains_key(&NAME.as_sort()) {
+                declarations.push(Declaration::Sort(*NAME));
+            }
+
+            if !datatypes.is_empty() {
+                declarations.push(Declaration::DataTypes(
+                    datatypes
+                        .into_iter()
+                        .map(|(sort, constructor_destructors)| DataType {
+                            sort,
+                            constructor_destructors,
+                        })
+                        .collect(),
+                ));
+            }
         }
         trace!("[G]\t\t[DONE]");
 
-- 
2.43.0


From a80d259a60b6737b983ca880eb7f22c85809a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:07 +0000
Subject: [PATCH 13/39] fix: exec(init) is the condition of init, not
 unconditionally true

---
 .../src/problem/crypto_assumptions/unfolding.rs             | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs b/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
index f7227d1..b7a2537 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
@@ -121,8 +121,12 @@ impl<'bump> Unfolding<'bump> {
                       {LESS_THAN_EQ_STEP.f([s2, s]) >> ev.eval(self.cond().f([s2]))}))})
             });
 
+            let init = pbl.protocol().init_step().into_formula();
             chain!(
-                [ev.eval(exec.f([pbl.protocol().init_step().into_formula()]))],
+                [meq(
+                    ev.eval(exec.f([init.clone()])),
+                    ev.eval(self.cond().f([init]))
+                )],
                 recusive,
                 direct
             )
-- 
2.43.0


From 18da836f448fec869ee27e4bd071f6b5de772162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:13 +0000
Subject: [PATCH 14/39] fix: hmac equalities: the side that is not a mac is
 searched for macs

---
 .../src/problem/crypto_assumptions/uf_cma/subterm.rs      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs
index c89cb36..862a384 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs
@@ -167,13 +167,17 @@ impl<'bump> UfCmaMainSubtAux<'bump> {
             if let [left, right] = args.as_ref();
             then {
                 let mut nexts = Vec::with_capacity(2*4);
-                for e in [left, right] {
+                for (e, other) in [(left, right), (right, left)] {
                     if_chain!{
                         if let RichFormula::Fun(m_mac, m_args) = e.as_ref();
                         if *m_mac == uf_cma.mac();
                         then {
                             debug_assert_eq!(m_args.len(), 2); // should be ensured by the *m_mac == uf_cma.mac() check
-                            nexts.extend(m_args.iter().cloned())
+                            nexts.extend(m_args.iter().cloned());
+                            // the other side is still computed, unless it is a mac too
+                            if !matches!(other.as_ref(), RichFormula::Fun(f, _) if *f == uf_cma.mac()) {
+                                nexts.push(other.clone())
+                            }
                         }
                     }
                 }
-- 
2.43.0


From e63cbd861bf97487f3dffedc03e8bd16844e84a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:40 +0000
Subject: [PATCH 15/39] fix: variables of lifted quantifiers are counted when
 choosing fresh variables

The unforgeability axioms could otherwise capture the variables of the
candidate in the existential quantifier over the honest tags.
---
 crates/cryptovampire/src/formula/variable.rs  | 21 +++++++++++++++++++
 .../cryptovampire/src/problem/problem/mod.rs  | 10 ++++++---
 crates/cryptovampire/src/problem/protocol.rs  |  7 ++++++-
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/crates/cryptovampire/src/formula/variable.rs b/crates/cryptovampire/src/formula/variable.rs
index 7a44c1d..f369171 100644
--- a/crates/cryptovampire/src/formula/variable.rs
+++ b/crates/cryptovampire/src/formula/variable.rs
@@ -8,8 +8,10 @@ use utils::utils::MaybeInvalid;
 
 use super::{
     formula::{ARichFormula, RichFormula},
+    function::{inner::term_algebra::TermAlgebra, InnerFunction},
     sort::Sort,
 };
+use logic_formula::{iterators::AllTermsIterator, Formula};
 
 /// Alias for the name of varibles
 #[allow(non_camel_case_types)]
@@ -126,6 +128,25 @@ where
     q
 }
 
+/// The variables that only occur inside the lifted quantifiers of `formulas`
+pub fn lifted_variables<'a, 'bump: 'a>(
+    formulas: impl IntoIterator<Item = &'a ARichFormula<'bump>>,
+) -> Vec<Variable<'bump>> {
+    let mut todo: Vec<ARichFormula<'bump>> = formulas.into_iter().cloned().collect();
+    let mut vars = Vec::new();
+    while let Some(formula) = todo.pop() {
+        for term in (&formula).iter_with(AllTermsIterator, ()) {
+            if let RichFormula::Fun(fun, _) = term.as_ref() {
+                if let InnerFunction::TermAlgebra(TermAlgebra::Quantifier(q)) = fun.as_inner() {
+                    vars.extend(q.bound_variables.iter().chain(q.free_variables.iter()));
+                    todo.extend(q.get_content_iter().cloned());
+                }
+            }
+        }
+    }
+    vars
+}
+
 /// To get the maxvar
 pub trait IntoVariableIter<'bump> {
     fn vars_iter(self) -> impl Iterator<Item = Variable<'bump>>;
diff --git a/crates/cryptovampire/src/problem/problem/mod.rs b/crates/cryptovampire/src/problem/problem/mod.rs
index 378efa6..baf5296 100644
--- a/crates/cryptovampire/src/problem/problem/mod.rs
+++ b/crates/cryptovampire/src/problem/problem/mod.rs
@@ -30,7 +30,7 @@ use crate::{
             builtins::{CONDITION, NAME},
             Sort,
         },
-        variable::{uvar, IntoVariableIter},
+        variable::{lifted_variables, uvar, IntoVariableIter},
     },
 };
 
@@ -100,12 +100,16 @@ impl<'bump> Problem<'bump> {
     }
 
     pub fn max_var(&self) -> uvar {
-        UsedVariableIterator::with(self.list_top_level_terms()).max_var()
+        UsedVariableIterator::with(self.list_top_level_terms())
+            .chain(lifted_variables(self.list_top_level_terms()))
+            .max_var()
     }
 
     /// [Self::max_var] without [Self::extra_instances]
     pub fn max_var_no_extras(&self) -> uvar {
-        UsedVariableIterator::with(self.list_top_level_terms_no_extra()).max_var()
+        UsedVariableIterator::with(self.list_top_level_terms_no_extra())
+            .chain(lifted_variables(self.list_top_level_terms_no_extra()))
+            .max_var()
     }
 
     pub fn container(&self) -> &'bump ScopedContainer<'bump> {
diff --git a/crates/cryptovampire/src/problem/protocol.rs b/crates/cryptovampire/src/problem/protocol.rs
index 3bc5a79..1eac690 100644
--- a/crates/cryptovampire/src/problem/protocol.rs
+++ b/crates/cryptovampire/src/problem/protocol.rs
@@ -3,7 +3,10 @@ use std::rc::Rc;
 
 use itertools::{chain, Itertools};
 
-use crate::formula::{formula::ARichFormula, variable::uvar};
+use crate::formula::{
+    formula::ARichFormula,
+    variable::{lifted_variables, uvar},
+};
 use utils::implvec;
 
 use super::{
@@ -145,6 +148,8 @@ impl<'bump> Protocol<'bump> {
                         .iter()
                         .flat_map(|c| c.assignements().iter().flat_map(|a| a.fresh_vars.iter())),
                 )
+                .copied()
+                .chain(lifted_variables(self.list_top_level_terms_short_lifetime()))
                 .map(|v| v.id)
                 .max()
                 .unwrap_or(0)
-- 
2.43.0


From d9de90b734f4667ab017abea5bfd4944fc3425b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:48 +0000
Subject: [PATCH 16/39] fix: exit with a failure code in quiet mode when
 nothing was proved

---
 crates/cryptovampire/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/main.rs b/crates/cryptovampire/src/main.rs
index 842386d..09066a2 100644
--- a/crates/cryptovampire/src/main.rs
+++ b/crates/cryptovampire/src/main.rs
@@ -43,7 +43,12 @@ fn main() {
     };
 
     match output_format {
-        cryptovampire::cli::Output::Quiet => (),
+        cryptovampire::cli::Output::Quiet => {
+            // the exit code is all there is to tell a failure
+            if res.is_err() {
+                std::process::exit(1)
+            }
+        }
         cryptovampire::cli::Output::Stdout => {
             let res = res.unwrap();
             eprintln!("{res}")
-- 
2.43.0


From ac97398c7525ab66d49ee6b70eacd5968abaf8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:02 +0000
Subject: [PATCH 17/39] fix: applications with too many arguments are refused;
 chains of == and <=> are not cut

---
 .../src/parser/parser/parsable_trait.rs       | 42 ++++++++++++-------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index fe781ab..540af6c 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -508,6 +508,19 @@ where
     let signature = function.signature();
     let mut formula_realm = signature.realm();
 
+    // check arity
+    let args = args.into_iter().collect_vec();
+    if !signature.args_size().contains(&args.len().into()) {
+        let range = signature.args_size();
+        bail_at!(
+            span,
+            "wrong number of arguments: got {}, expected [{}, {}]",
+            args.len(),
+            range.start(),
+            range.end()
+        )
+    }
+
     // parse further
     let n_args: Result<Vec<_>, _> = {
         // propagate the right state if it changed
@@ -524,18 +537,6 @@ where
     };
     let n_args = n_args?;
 
-    // check arity
-    if !signature.args_size().contains(&n_args.len().into()) {
-        let range = signature.args_size();
-        bail_at!(
-            span,
-            "wrong number of arguments: got {}, expected [{}, {}]",
-            n_args.len(),
-            range.start(),
-            range.end()
-        )
-    }
-
     let ifun = function.get_function();
     // if it's a name, cast it
     let formula = if let Some(name) = ifun.as_name() {
@@ -747,7 +748,7 @@ where
                 .debug_continue(),
             },
             ast::Operation::Eq => match state.get_realm() {
-                Realm::Evaluated => parse_application(
+                Realm::Evaluated if self.terms.len() == 2 => parse_application(
                     env,
                     &self.span,
                     state,
@@ -757,6 +758,17 @@ where
                     &self.terms,
                 )
                 .debug_continue(),
+                Realm::Evaluated => Self {
+                    operation: ast::Operation::And,
+                    terms: as_pair_of_term(
+                        &self.span,
+                        self.operation,
+                        self.terms.iter().tuple_windows(),
+                    ),
+                    span: self.span.clone(),
+                }
+                .parse(env, bvars, state, expected_sort)
+                .debug_continue(),
                 Realm::Symbolic => Self {
                     operation: ast::Operation::HardEq,
                     ..self.clone()
@@ -784,7 +796,7 @@ where
             .parse(env, bvars, state, expected_sort)
             .debug_continue(),
             ast::Operation::Iff => match state.get_realm() {
-                Realm::Evaluated => parse_application(
+                Realm::Evaluated if self.terms.len() == 2 => parse_application(
                     env,
                     &self.span,
                     state,
@@ -804,7 +816,7 @@ where
                     &self.terms,
                 )
                 .debug_continue(),
-                Realm::Symbolic => Self {
+                _ => Self {
                     operation: ast::Operation::And,
                     terms: as_pair_of_term(
                         &self.span,
-- 
2.43.0


From 34739f1a8167cab8b6469d5854d53c29d5302494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:02 +0000
Subject: [PATCH 18/39] fix: both sides of an equality must have the same sort

---
 crates/cryptovampire/src/formula/function/inner/booleans.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/formula/function/inner/booleans.rs b/crates/cryptovampire/src/formula/function/inner/booleans.rs
index 11c0781..d489293 100644
--- a/crates/cryptovampire/src/formula/function/inner/booleans.rs
+++ b/crates/cryptovampire/src/formula/function/inner/booleans.rs
@@ -214,8 +214,8 @@ mod signatures {
 
     #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Default)]
     pub struct EqualitySignature<'bump> {
-        left: SortProxy<'bump>,
-        right: SortProxy<'bump>,
+        /// the sort of both sides
+        sort: SortProxy<'bump>,
     }
 
     impl<'bump> Signature<'bump> for EqualitySignature<'bump> {
@@ -234,7 +234,7 @@ mod signatures {
         where
             'bump: 'a,
         {
-            [&self.left, &self.right].map(Clone::clone)
+            [&self.sort, &self.sort].map(Clone::clone)
         }
 
         fn fast(self) -> Option<Self::FxSign> {
-- 
2.43.0


From 68cd797739c103cb721cf2dfbed8fad1fda770b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:02 +0000
Subject: [PATCH 19/39] fix: assignments with the wrong number of cell indices
 are refused

---
 .../src/parser/parser/parse_step_cell_asserts/step.rs  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
index 65cdbd5..ed3dead 100644
--- a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
+++ b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
@@ -147,6 +147,16 @@ where
                 .and_then(FunctionCache::as_memory_cell)
                 .unknown_symbol(cell_ast, &"cell", cell_name)?;
 
+            // check arity
+            if cell_ast.args().len() != args.len() {
+                crate::bail_at!(
+                    cell_ast,
+                    "wrong number of arguments: got {}, expected {}",
+                    cell_ast.args().len(),
+                    args.len()
+                )
+            }
+
             // get the arguments and apply substitution
             let cell_args: Result<Arc<[_]>, _> = cell_ast
                 .args()
-- 
2.43.0


From b8447ea14ad1eae58efd45084871f2fd7872620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:02 +0000
Subject: [PATCH 20/39] fix: an if-then-else is not a condition

---
 .../src/parser/parser/parsable_trait.rs           | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 540af6c..6c29ffa 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -172,14 +172,17 @@ where
         let (es_condition, es_branches): (SortProxy<'bump>, Option<SortProxy<'bump>>) =
             match state.get_realm() {
                 Realm::Evaluated => (BOOL.as_sort().into(), expected_sort),
-                Realm::Symbolic => (CONDITION.as_sort().into(), Some(MESSAGE.as_sort().into())),
+                Realm::Symbolic => {
+                    // check sort
+                    expected_sort.into_iter().try_for_each(|s| {
+                        s.expects(MESSAGE.as_sort(), state)
+                            .with_location(|| &self.span)
+                            .debug_continue()
+                    })?;
+                    (CONDITION.as_sort().into(), Some(MESSAGE.as_sort().into()))
+                }
             };
 
-        // check sort
-        // if let Some(es) = &expected_sort {
-        //     es_branches.unify(es, &state).with_location(&self.span).debug_continue()?;
-        // }
-
         let ast::IfThenElse {
             condition,
             left,
-- 
2.43.0


From 41bf2d1b9036f43603111a0ef8222fe82fa8aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:30 +0000
Subject: [PATCH 21/39] fix: msg! and cond! with several arguments are refused

---
 crates/cryptovampire/src/parser/ast/macros.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/parser/ast/macros.rs b/crates/cryptovampire/src/parser/ast/macros.rs
index 6ceb9aa..38cf88c 100644
--- a/crates/cryptovampire/src/parser/ast/macros.rs
+++ b/crates/cryptovampire/src/parser/ast/macros.rs
@@ -1,7 +1,7 @@
 use cryptovampire_macros::LocationProvider;
 use location::ASTLocation;
 
-use crate::Result;
+use crate::{bail_at, Result};
 
 use super::*;
 
@@ -67,8 +67,17 @@ boiler_plate!(@ AppMacro, 'a, macro_application; |p| {
         let name: MacroName<'a, &str> = p.next().unwrap().try_into()?;
 
         match name.0.content.content {
-            "msg" => InnerAppMacro::Msg(from_term_to_application(p.next().unwrap())?),
-            "cond" => InnerAppMacro::Cond(from_term_to_application(p.next().unwrap())?),
+            "msg" | "cond" => {
+                let step = from_term_to_application(p.next().unwrap())?;
+                if let Some(p) = p.next() {
+                    bail_at!(p.as_span(), "too many arguments, expected a single step")
+                }
+                if name.0.content.content == "msg" {
+                    InnerAppMacro::Msg(step)
+                } else {
+                    InnerAppMacro::Cond(step)
+                }
+            }
             _ => {
                 let args : Result<Vec<_>> = p.map(TryInto::try_into).collect();
                 InnerAppMacro::Other { name, args: args? }
-- 
2.43.0


From 6e566a9f70c9c255eda5206abf9f4365d349ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:14 +0000
Subject: [PATCH 22/39] fix: a bound variable of the output never captures a
 user symbol

---
 crates/cryptovampire/src/formula/variable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/formula/variable.rs b/crates/cryptovampire/src/formula/variable.rs
index f369171..4ba3793 100644
--- a/crates/cryptovampire/src/formula/variable.rs
+++ b/crates/cryptovampire/src/formula/variable.rs
@@ -25,7 +25,8 @@ pub struct Variable<'bump> {
 }
 impl<'bump> fmt::Display for Variable<'bump> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{}X{}", self.sort.short_name(), self.id)
+        // no user symbol contains a `$`, so none can be captured
+        write!(f, "{}X${}", self.sort.short_name(), self.id)
     }
 }
 
-- 
2.43.0


From 7df4c32b0165a0971611e63789a3999f5afd0bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:45 +0000
Subject: [PATCH 23/39] fix: user symbols and sorts can't be words of the
 output language

---
 crates/cryptovampire/src/parser/mod.rs            | 8 ++++++++
 crates/cryptovampire/src/parser/parser/declare.rs | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/parser/mod.rs b/crates/cryptovampire/src/parser/mod.rs
index fccd695..67dfe77 100644
--- a/crates/cryptovampire/src/parser/mod.rs
+++ b/crates/cryptovampire/src/parser/mod.rs
@@ -49,6 +49,14 @@ pub const USED_KEYWORDS: &[&str] = &[
     "Int",
     "Real",
     "Array",
+    "let",
+    "as",
+    "par",
+    "distinct",
+    "lambda",
+    "String",
+    "evaluate_msg",
+    "evaluate_cond",
 ];
 
 // pub type MResult<T> = std::result::Result<T, error::InputError>;
diff --git a/crates/cryptovampire/src/parser/parser/declare.rs b/crates/cryptovampire/src/parser/parser/declare.rs
index 96c6515..a0cd1c5 100644
--- a/crates/cryptovampire/src/parser/parser/declare.rs
+++ b/crates/cryptovampire/src/parser/parser/declare.rs
@@ -47,7 +47,7 @@ where
         })
         .try_for_each(|s| {
             let name = s.name();
-            if env.sort_hash.contains_key(name.borrow()) {
+            if env.sort_hash.contains_key(name.borrow()) || env.used_name.contains(name.borrow()) {
                 // err(merr(
                 //     *s.get_name_span(),
                 //     f!("the sort name {} is already in use", name),
-- 
2.43.0


From 446481e20c34bfa2bf2e3f6522e458717ea6fc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:12 +0000
Subject: [PATCH 24/39] fix: variables of different sorts never share a name in
 the output

---
 crates/cryptovampire/src/formula/variable.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/formula/variable.rs b/crates/cryptovampire/src/formula/variable.rs
index 4ba3793..95ab84b 100644
--- a/crates/cryptovampire/src/formula/variable.rs
+++ b/crates/cryptovampire/src/formula/variable.rs
@@ -25,8 +25,9 @@ pub struct Variable<'bump> {
 }
 impl<'bump> fmt::Display for Variable<'bump> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        // no user symbol contains a `$`, so none can be captured
-        write!(f, "{}X${}", self.sort.short_name(), self.id)
+        // no user symbol contains a `$`, so none can be captured. The whole sort is
+        // needed because variables of different sorts may share an `id`
+        write!(f, "{}X${}", self.sort, self.id)
     }
 }
 
-- 
2.43.0


From a57565b087607449e12c6ada544f4294bd2f42ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:51 +0000
Subject: [PATCH 25/39] fix: the key of the symbolic int-ctxt axiom is a
 message

---
 crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index 652e1fd..61f2c53 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -139,7 +139,7 @@ impl<'bump> IntCtxt<'bump> {
                 formula: mforall!(c!1:message_sort, k!3:nonce_sort; {
                     let k_f = nc.cast(message_sort, k);
                     // ev.eval(self.verify.apply([c.into(), k_f.clone()])) >>
-                    (!meq(ev.eval(self.dec.f([c, k])), ev.eval(self.fail()))) >>
+                    (!meq(ev.eval(self.dec.f([c.into(), k_f.clone()])), ev.eval(self.fail()))) >>
                     mexists!(m!4:message_sort, r!5:nonce_sort; {
                         let r_f = nc.cast(message_sort, r);
                         let c2 = self.enc.f([m.into(), r_f.clone(), k_f.clone()]);
-- 
2.43.0


From 0923842cd1b761b17f68bae33623ee9b12b5db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:32 +0000
Subject: [PATCH 26/39] fix: the systems of a dump are written side by side

The output location was extended in place, so the problem of the second
system was to be put under the file of the first one ('out/0/1') and
nothing could be produced for a dump with several systems.
---
 crates/cryptovampire/src/squirrel/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/squirrel/mod.rs b/crates/cryptovampire/src/squirrel/mod.rs
index 57f2491..00cfd8d 100644
--- a/crates/cryptovampire/src/squirrel/mod.rs
+++ b/crates/cryptovampire/src/squirrel/mod.rs
@@ -23,6 +23,7 @@ pub fn run_from_json(mut args: Args, str: &str) -> crate::Result<Vec<Return>> {
     trace!("parsing successful");
 
     trace!("converting to ast");
+    let location = args.get_mut_output_location().cloned();
     convert_squirrel_dump(dump)?
         .into_iter()
         .enumerate()
@@ -38,9 +39,8 @@ pub fn run_from_json(mut args: Args, str: &str) -> crate::Result<Vec<Return>> {
                 trace!("runnig the {i}th problem with ast:\n\t{ast}");
             }
 
-            match args.get_mut_output_location() {
-                None => (),
-                Some(location) => *location = location.join(format!("{i}")),
+            if let (Some(out), Some(location)) = (args.get_mut_output_location(), &location) {
+                *out = location.join(format!("{i}"));
             }
             run_from_ast(&args, ast)
         })
-- 
2.43.0


From b2b3bdf0fbf01707823a85ed57e5bc78ebb6784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:32 +0000
Subject: [PATCH 27/39] fix: the elements of a tuple keep their order

The first projection of a dumped tuple was its last element.
---
 .../converters/helper_functions/convertion_functions.rs         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
index 277fdcb..ed1e3b5 100644
--- a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
+++ b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
@@ -301,7 +301,7 @@ pub fn convert_tuple<'a>(
 ) -> RAoO<ast::Term<'a, StrRef<'a>>> {
     let empty =
         mdo! { pure ast::Application::new_app(Default::default(),EMPTY_FUN_NAME.into(), []).into()};
-    elements.iter().fold(empty, |acc, t| {
+    elements.iter().rev().fold(empty, |acc, t| {
         let acc = acc?;
         let t = t.convert(ctx)?;
         mdo! {
-- 
2.43.0


From a128ccc6f66c6df2360c62a56c20d5ccde2d95e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:32 +0000
Subject: [PATCH 28/39] fix: equivalence in a dump is not the equality of
 messages

'<=>' was read as '==', which doesn't apply to booleans in a protocol, so
a dump using it was refused.
---
 crates/cryptovampire/src/squirrel/converters/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/mod.rs b/crates/cryptovampire/src/squirrel/converters/mod.rs
index a622c5f..4d47fc3 100644
--- a/crates/cryptovampire/src/squirrel/converters/mod.rs
+++ b/crates/cryptovampire/src/squirrel/converters/mod.rs
@@ -39,7 +39,7 @@ static REMMAPPED_FUNCTION: HashMap<&'static str, StrRef<'static>> = {
         ("and", AND.name()),
         ("||", OR.name()),
         ("or", OR.name()),
-        ("<=>", EQUALITY.name()),
+        ("<=>", "<=>".into()),
         ("=>", IMPLIES.name()),
         ("=", EQUALITY.name()),
         ("<>", "!=".into()),
-- 
2.43.0


From d308079526627043c68402f4c0ae0af2e0a9c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:57 +0000
Subject: [PATCH 29/39] fix: a global macro reads the inputs of the actions
 that lead to it

The inputs were paired with the actions one step too early, and only after
those that are not named were dropped, so the macro was given the output
of other actions' inputs (or those of 'init'). Macros of the same action
may also be defined at different depths: all their inputs are bound.
---
 .../src/squirrel/converters/ast_convertion.rs | 44 +++++++++----------
 .../cryptovampire/src/squirrel/json/mmacro.rs | 12 ++---
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs b/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
index 2ef5478..c19ef78 100644
--- a/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
+++ b/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
@@ -12,9 +12,9 @@ use crate::{
     bail_at,
     parser::ast::{self, Options, Term},
     squirrel::{
-        converters::ContextBuilder,
         json::{
-            self, mmacro,
+            self,
+            mmacro::MacroNameRef,
             operator::{OperatorName, OperatorNameRef},
             NameNameRef,
         },
@@ -116,7 +116,7 @@ impl<'a> ToAst<'a> for json::Action<'a> {
             output,
             action: _,
             input: _,
-            globals,
+            globals: _,
         } = self;
 
         let name = ast::StepName::from(name.sanitized(&ctx));
@@ -148,22 +148,9 @@ impl<'a> ToAst<'a> for json::Action<'a> {
             "free variables in a condition (and I'm not sure what this means)"
         );
 
-        let ctx = ContextBuilder::from(ctx)
-            // .current_step(Some(self))
-            .build()
-            .unwrap();
-
-        let fst_global_macro = globals
-            .iter()
-            .filter_map(|symb| {
-                // FIXME: better deal with the option
-                ctx.dump().get_macro(symb)
-            })
-            .next();
-
         mdo! {
-            let! message = self.prepare_term(output.term(), fst_global_macro, ctx);
-            let! condition = self.prepare_term(condition.term(), fst_global_macro, ctx);
+            let! message = self.prepare_term(output.term(), ctx);
+            let! condition = self.prepare_term(condition.term(), ctx);
             let! assignements = Ok(AoOV::transpose_iter(assignements.clone()));
             let! args = Ok(AoOV::transpose_iter(args.clone()));
             pure ast::Step {
@@ -184,19 +171,30 @@ impl<'a> json::Action<'a> {
     fn prepare_term<'b>(
         &self,
         term: &json::Term<'a>,
-        fst_global_macro: Option<&mmacro::Data<'a>>,
         ctx: Context<'b, 'a>,
     ) -> RAoO<ast::Term<'a, StrRef<'a>>> {
+        // the `i`-th input is the one of the `i`-th action leading to this one
+        let inputs = term
+            .iter()
+            .filter_map(|t| match t {
+                json::Term::Macro { symb, .. } => ctx.dump().get_macro(&MacroNameRef(symb.path())),
+                _ => None,
+            })
+            .flat_map(|g| g.all_inputs().rev().enumerate())
+            .filter(|(_, v)| !v.is_dummy())
+            .unique()
+            .sorted_by_key(|(i, _)| std::cmp::Reverse(*i))
+            .collect_vec();
         let output = term.convert(ctx).bind(|term| {
-            fst_global_macro
+            inputs
                 .iter()
-                .flat_map(|g| g.inputs().rev().enumerate())
                 .map(|(i, v)| {
+                    let path = &self.action[..=*i];
                     let a = ctx
                         .dump()
-                        .get_action_from_action_v(&self.action[0..i])
+                        .get_action_from_action_v(path)
                         .ok_or_else(|| {
-                            let actions = self.action[0..i]
+                            let actions = path
                                 .iter()
                                 .map(serde_json::to_string_pretty)
                                 .map(Result::unwrap)
diff --git a/crates/cryptovampire/src/squirrel/json/mmacro.rs b/crates/cryptovampire/src/squirrel/json/mmacro.rs
index 3016d17..a4a0a19 100644
--- a/crates/cryptovampire/src/squirrel/json/mmacro.rs
+++ b/crates/cryptovampire/src/squirrel/json/mmacro.rs
@@ -11,13 +11,15 @@ pub enum Data<'a> {
 }
 
 impl<'a> Data<'a> {
-    pub fn inputs<'b>(&'b self) -> impl DoubleEndedIterator<Item = &'b Variable<'a>> {
+    /// All the inputs of a global macro, dummies included, the latest first.
+    pub fn all_inputs<'b>(
+        &'b self,
+    ) -> impl DoubleEndedIterator<Item = &'b Variable<'a>> + ExactSizeIterator {
         match self {
-            Data::Global(gm) => Some(gm.inputs()),
-            _ => None,
+            Data::Global(gm) => gm.data.inputs.as_slice(),
+            _ => &[],
         }
-        .into_iter()
-        .flatten()
+        .iter()
     }
 }
 
-- 
2.43.0


From 5d26b0acab425fbc23a655e7603cffa5e4d997c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:57 +0000
Subject: [PATCH 30/39] fix: global macros can be used in the update of a cell

Their inputs were bound in the condition and the output of an action, not
in its updates, so such a dump was refused.
---
 crates/cryptovampire/src/squirrel/converters/ast_convertion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs b/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
index c19ef78..a719c94 100644
--- a/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
+++ b/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
@@ -252,7 +252,7 @@ impl<'a, 'b> ToAst<'a> for json::action::UpdateRef<'a, 'b> {
         mdo! {
             let! args = Ok(AoOV::transpose_iter(args));
             let! fresh_vars = Ok(AoOV::transpose_iter(fresh_vars.clone()));
-            let! term = body.convert(ctx);
+            let! term = action.prepare_term(body, ctx);
             pure ast::Assignement {
                 span: Default::default(),
                 cell: ast::Application::new_app(Default::default(),  symb.sanitized(&ctx), args.clone()),
-- 
2.43.0


From b16d3f370902c7d84dd0f61b5f43fbd8f1bc0894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:12 +0000
Subject: [PATCH 31/39] fix: the message checked by a dumped checksign is its
 first argument

Squirrel writes 'checksign(message, signature, key)' while the euf-cma
axiom is about 'verify(signature, message, key)': the axiom instances were
about signatures of signatures.
---
 .../helper_functions/convertion_functions.rs          |  8 +++++++-
 crates/cryptovampire/src/squirrel/json/operator.rs    | 11 +++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
index ed1e3b5..adedd18 100644
--- a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
+++ b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
@@ -72,7 +72,7 @@ where
     N: Equivalent<NameName<'a>> + std::hash::Hash + Sanitizable<'a>,
     O: Equivalent<OperatorName<'a>> + std::hash::Hash + Sanitizable<'a>,
 {
-    let args: Vec<_> = if_chain! {
+    let mut args: Vec<_> = if_chain! {
         if let Some(f) = ctx.dump().get_name_or_operator_fun_type(symb);
         let args_type = f.args.as_slice();
         if args_type.len() == 1;
@@ -84,6 +84,12 @@ where
     .iter()
     .map(|arg| arg.convert(ctx))
     .try_collect()?;
+    if let Either::Right(op) = symb {
+        if ctx.dump().get_operator(op).is_some_and(|op| op.is_checksign()) && args.len() > 1 {
+            // `squirrel` checks `(message, signature, key)`, we check `(signature, message, key)`
+            args.swap(0, 1)
+        }
+    }
     let symb = match_as_trait!(symb => {Either::Left(x) | Either::Right(x) => {x.sanitized(&ctx)}});
     // let op = Operation::get_operation(symb.as_str());
     mdo! {
diff --git a/crates/cryptovampire/src/squirrel/json/operator.rs b/crates/cryptovampire/src/squirrel/json/operator.rs
index 85b4c33..4db4cce 100644
--- a/crates/cryptovampire/src/squirrel/json/operator.rs
+++ b/crates/cryptovampire/src/squirrel/json/operator.rs
@@ -91,6 +91,17 @@ impl<'a> Data<'a> {
     pub fn def(&self) -> &Def<'a> {
         &self.def
     }
+
+    #[must_use]
+    pub fn is_checksign(&self) -> bool {
+        matches!(
+            self.def(),
+            Def::Abstract {
+                abstract_def: AbstractDef::CheckSign,
+                ..
+            }
+        )
+    }
 }
 new_name!(OperatorName:Function);
 pub type Operator<'a> = Content<OperatorName<'a>, operator::Data<'a>>;
-- 
2.43.0


From 2736edec07f4757851a89892488cb84964d78090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:26 +0000
Subject: [PATCH 32/39] fix: a last argument that is a tuple doesn't hide the
 other ones

A function taking several arguments of which the last is a tuple was
declared with the elements of that tuple only, and applied to all of its
arguments; only a single tuple is meant to be flattened.
---
 .../src/squirrel/converters/top_level_converter.rs            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/top_level_converter.rs b/crates/cryptovampire/src/squirrel/converters/top_level_converter.rs
index 375d69a..d44fb9d 100644
--- a/crates/cryptovampire/src/squirrel/converters/top_level_converter.rs
+++ b/crates/cryptovampire/src/squirrel/converters/top_level_converter.rs
@@ -371,8 +371,8 @@ fn mk_funs_and_names<'a, 'b>(
                 trace!("converting {symb} with sort {sort}");
                 // let args: Vec<_> = args.iter().map(|arg| arg.convert(ctx)).try_collect()?;
                 let args: Vec<_> = {
-                    let args = match args.last() {
-                        Some(json::Type::Tuple { elements }) => elements,
+                    let args = match args.as_slice() {
+                        [json::Type::Tuple { elements }] => elements,
                         _ => args,
                     };
                     args.iter().map(|arg| arg.convert(ctx)).try_collect()
-- 
2.43.0


From e35e3d0025c41e34d54dde7a23b53ba2931540b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:20 +0000
Subject: [PATCH 33/39] fix: the names made for unprintable ones are legal
 symbols

'#' isn't allowed in the symbols of smt-lib (nor of vampire).
---
 crates/cryptovampire/src/squirrel/converters/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/mod.rs b/crates/cryptovampire/src/squirrel/converters/mod.rs
index 4d47fc3..0b78274 100644
--- a/crates/cryptovampire/src/squirrel/converters/mod.rs
+++ b/crates/cryptovampire/src/squirrel/converters/mod.rs
@@ -162,7 +162,7 @@ impl<'a, 'str> Context<'a, 'str> {
 
 static SMT_SAFE: Result<base64::engine::GeneralPurpose, base64::alphabet::ParseAlphabetError> = {
     match base64::alphabet::Alphabet::new(
-        "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789#$",
+        "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_$",
     ) {
         Ok(a) => Ok(base64::engine::GeneralPurpose::new(
             &a,
-- 
2.43.0


From 97cf0cdb3e853c13f4a3f9259decc2fdcf335e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 34/39] fix: keep the variables of an unfolded step apart from
 those of what is searched

When the search for a subterm unfolds a step macro, the variables of the step
are renamed in the condition under which it is reached, but not in the content
which is searched. And the new variables only avoid those bound by the search:
they captured those of the term which is searched or of the candidate, giving
axioms that speak of the wrong sessions, or are even ill-sorted.
---
 .../src/formula/utils/formula_expander.rs     | 34 +++++++++++++------
 crates/cryptovampire/src/subterm/mod.rs       |  7 ++--
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/crates/cryptovampire/src/formula/utils/formula_expander.rs b/crates/cryptovampire/src/formula/utils/formula_expander.rs
index 43a5b41..044a4d0 100644
--- a/crates/cryptovampire/src/formula/utils/formula_expander.rs
+++ b/crates/cryptovampire/src/formula/utils/formula_expander.rs
@@ -58,6 +58,9 @@ pub struct UnfoldingState<'bump> {
     /// The variables bound by the search (quantifiers or otherwise)
     #[builder(setter(into), default = "Rc::new([])")]
     bound_variables: Rc<[Variable<'bump>]>, // faster than Vec in our usecase
+    /// The variables of what is searched, no variable bound by the search can be one of them
+    #[builder(setter(into), default = "Rc::new([])")]
+    free_variables: Rc<[Variable<'bump>]>,
     /// Some condition to get here
     #[builder(setter(into, strip_option), default)]
     guard: Option<ARichFormula<'bump>>,
@@ -104,6 +107,13 @@ impl<'bump> UnfoldingState<'bump> {
         &self.bound_variables
     }
 
+    /// The variables a new bound variable must differ from
+    fn variables_to_avoid(&self) -> Vec<Variable<'bump>> {
+        chain!(self.bound_variables.iter(), self.free_variables.iter())
+            .cloned()
+            .collect()
+    }
+
     /// Same as [Self::bound_variables()] but with an owned [Rc]
     pub fn owned_bound_variable(&self) -> Rc<[Variable<'bump>]> {
         self.bound_variables.clone()
@@ -214,18 +224,17 @@ impl<'bump> Unfolder<'bump> {
         kind: step_macro::MessageOrCondition,
     ) -> Vec<Unfolder<'bump>> {
         destvec!([arg] = args);
-        let state_variables = self.state.bound_variables();
+        let state_variables = self.state.variables_to_avoid();
         steps
             .into_iter()
             .map(|s| {
+                let collision_var =
+                    make_collision_avoiding_subst(s.free_variables(), &state_variables);
                 let content = match kind {
                     step_macro::MessageOrCondition::Condition => s.condition_arc(),
                     step_macro::MessageOrCondition::Message => s.message_arc(),
                 }
-                .shallow_copy();
-
-                let collision_var =
-                    make_collision_avoiding_subst(s.free_variables(), state_variables);
+                .apply_substitution2(&collision_var);
                 let nvars = s
                     .free_variables()
                     .iter()
@@ -276,9 +285,11 @@ impl<'bump> Unfolder<'bump> {
             args.iter().cloned().collect_vec(),
         );
         let collistion_avoidance = {
-            let to_avoid = chain!(q.free_variables.iter(), self.state.bound_variables())
-                .cloned()
-                .collect_vec();
+            let to_avoid = chain!(
+                q.free_variables.iter().cloned(),
+                self.state.variables_to_avoid()
+            )
+            .collect_vec();
             make_collision_avoiding_subst(q.bound_variables.iter(), &to_avoid)
         };
         let new_state = self.state.add_variables(
@@ -315,7 +326,7 @@ fn unfold_cell_or_input<'b, 'bump>(
 where
     'bump: 'b,
 {
-    let state_variables = state.bound_variables();
+    let state_variables: Rc<[_]> = state.variables_to_avoid().into();
     // let max_var = state_variables.iter().map(|v| v.id).max().unwrap_or(0);
     trace!("expand_cell_or_input");
     let Ancestors { input, cells } = graph.ancestors(to_expand).unwrap();
@@ -324,6 +335,7 @@ where
     let step_origin = args.last().unwrap();
     let is_input = to_expand.is_input();
 
+    let cells_variables = Rc::clone(&state_variables);
     let cells_iter = cells.iter().flat_map(|c| c.assignements().iter()).map(
         move |ma @ Assignement {
                   step,
@@ -336,7 +348,7 @@ where
 
             let collision_var = make_collision_avoiding_subst(
                 chain!(vars.iter(), fresh_vars.iter()),
-                state_variables,
+                &cells_variables,
             );
 
             let step_f = step.function().f(vars.iter().map(|v| collision_var.get(v)));
@@ -364,7 +376,7 @@ where
             steps.into_iter().flat_map(move |step| {
                 trace!("in input");
                 let vars = step.free_variables();
-                let collision_var = make_collision_avoiding_subst(vars, state_variables);
+                let collision_var = make_collision_avoiding_subst(vars, &state_variables);
                 let step_f = step.function().f(vars.iter().map(|v| collision_var.get(v)));
 
                 [step.message_arc(), step.condition_arc()]
diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index 26615b8..c6bdb1d 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -9,7 +9,7 @@ use std::{
 };
 
 use if_chain::if_chain;
-use itertools::Itertools;
+use itertools::{chain, Itertools};
 use log::{error, log_enabled, trace, warn};
 use logic_formula::outers::OwnedPile;
 use logic_formula::{Formula, FormulaIterator};
@@ -435,7 +435,10 @@ where
                     warn!("collision in the variables ({:} in {:}, {:?})",x, &formula, &bounded_variables)
                 }
                 // (, formula)
-                let passing = UnfoldingStateBuilder::default().flags(deeper_kind).bound_variables(bounded_variables).build().unwrap();
+                let free_variables: Rc<[_]> = chain!(x.used_vars_iter(), (&formula).used_vars_iter())
+                    .unique()
+                    .collect();
+                let passing = UnfoldingStateBuilder::default().flags(deeper_kind).bound_variables(bounded_variables).free_variables(free_variables).build().unwrap();
                 logic_formula::Content::Next { formula, passing }
             }).collect_vec();
         OwnedPile::new(
-- 
2.43.0


From ad9877336fbbdf61f65118ee8562bf24351ddca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 35/39] fix: check that the randomness of encryptions is used
 once before claiming integrity

The int-ctxt axioms only hold when the randomness of every encryption under the
key is a name of its own, as the general axiom says. The preprocessed axioms
only looked at encryptions at the top level of messages, never compared an
encryption with its own other instances, nor two whose messages don't unify (the
case that matters), and ignored randomness that leaks.
---
 .../problem/crypto_assumptions/int_ctxt.rs    | 300 +++++++++++-------
 1 file changed, 179 insertions(+), 121 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index 61f2c53..b820f64 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -1,13 +1,16 @@
-use std::{collections::BTreeSet, hash::Hash, sync::Arc};
+use std::{collections::BTreeSet, hash::Hash, rc::Rc, sync::Arc};
 
 use if_chain::if_chain;
 use itertools::Itertools;
 use log::trace;
 use logic_formula::iterators::AllTermsIterator;
 
-use crate::formula::utils::formula_expander::NO_REC_MACRO;
+use crate::formula::function::inner::evaluate::Evaluator;
+use crate::formula::utils::formula_expander::{
+    UnfolderBuilder, UnfoldingStateBuilder, NO_REC_MACRO,
+};
 use crate::formula::utils::Applicable;
-use crate::formula::variable::IntoVariableIter;
+use crate::formula::variable::{uvar, IntoVariableIter};
 use crate::subterm::{
     into_exist_formula,
     kind::SubtermKindConstr,
@@ -19,9 +22,9 @@ use crate::{
     formula::{
         file_descriptior::{axioms::Axiom, declare::Declaration},
         formula::{ands, forall, meq, ARichFormula, RichFormula},
-        function::{builtin::TRUE, Function},
+        function::Function,
         function::{inner::subterm::Subsubterm, name_caster_collection::NameCasterCollection},
-        manipulation::Unifier,
+        manipulation::MultipleVarSubst,
         sort::{
             builtins::{CONDITION, MESSAGE, NAME},
             Sort,
@@ -30,7 +33,7 @@ use crate::{
         variable::Variable,
     },
     mexists, mforall,
-    problem::{generator::Generator, problem::Problem},
+    problem::{generator::Generator, problem::Problem, Protocol},
     static_signature,
 };
 use logic_formula::Formula;
@@ -116,8 +119,14 @@ impl<'bump> IntCtxt<'bump> {
 
         if env.preprocess_instances() {
             assertions.extend(
-                self.preprocess(env, pbl, subterm_main.as_ref(), subterm_key.as_ref())
-                    .map(Axiom::base),
+                self.preprocess(
+                    env,
+                    pbl,
+                    subterm_main.as_ref(),
+                    subterm_key.as_ref(),
+                    subterm_rand.as_ref(),
+                )
+                .map(Axiom::base),
             )
         }
 
@@ -180,14 +189,57 @@ impl<'bump> IntCtxt<'bump> {
         )
     }
 
+    /// All the encryptions in `terms`, including those under (ta) quantifiers
+    fn encryptions<'a>(
+        &self,
+        ptcl: &Protocol<'bump>,
+        terms: impl IntoIterator<Item = &'a ARichFormula<'bump>>,
+    ) -> Vec<IntCtxtEncCandidates<'bump>>
+    where
+        'bump: 'a,
+    {
+        let mut encryptions = Vec::new();
+        let mut todo = terms.into_iter().cloned().collect_vec();
+        while let Some(term) = todo.pop() {
+            for formula in (&term).iter_with(AllTermsIterator, ()) {
+                match formula.as_ref() {
+                    RichFormula::Fun(fun, args) if fun == &self.enc => {
+                        let [message, rand, key] = [0, 1, 2].map(|i: usize| args[i].shallow_copy());
+                        encryptions.push(IntCtxtEncCandidates { message, rand, key })
+                    }
+                    RichFormula::Fun(..) => {
+                        let variables: Rc<[_]> = formula.used_vars_iter().unique().collect();
+                        let state = UnfoldingStateBuilder::default()
+                            .flags(UnfoldFlags::UNFOLD_TA_QUANTIFIER)
+                            .free_variables(variables)
+                            .build()
+                            .unwrap();
+                        todo.extend(
+                            UnfolderBuilder::default()
+                                .state(state)
+                                .content(formula)
+                                .build()
+                                .unwrap()
+                                .unfold([], ptcl.graph())
+                                .into_iter()
+                                .map(|u| u.as_tuple().0),
+                        )
+                    }
+                    _ => (),
+                }
+            }
+        }
+        encryptions.into_iter().unique().collect()
+    }
+
     pub fn preprocess<'a>(
         &'a self,
         env: &impl KnowsRealm,
         pbl: &'a Problem<'bump>,
         subterm_main: &'a Subterm<'bump, impl SubtermAux<'bump>>,
         subterm_key: &'a Subterm<'bump, impl SubtermAux<'bump>>,
+        subterm_rand: &'a Subterm<'bump, impl SubtermAux<'bump>>,
     ) -> impl Iterator<Item = ARichFormula<'bump>> + 'a {
-        let mut side_condition = true;
         let max_var = pbl.max_var();
         // let pile1 = RefCell::new(Vec::new());
         // let pile2 = RefCell::new(Vec::new());
@@ -231,41 +283,9 @@ impl<'bump> IntCtxt<'bump> {
             .unique()
             .collect_vec();
 
-        // term of the for enc(_, nonce(_), _)
-        // with variables unchanged
-        let candidates_enc = pbl
-            .list_top_level_terms()
-            // .flat_map(move |f| f.iter()) // sad...
-            .filter_map(|formula| match formula.as_ref() {
-                RichFormula::Fun(fun, args) => {
-                    if fun == &self.enc {
-                        if_chain! {
-                            if let RichFormula::Fun(nf, args2) = args[1].as_ref();
-                            if nf == pbl.name_caster().cast_function(&MESSAGE.as_sort()).unwrap();
-                            then {
-                            let [message, key, rand] =
-                                [&args[0], &args[2], &args2[0]]
-                                // .map(|f| f.translate_vars(max_var).into_arc());
-                                .map(|f| f.clone());
-                                Some(IntCtxtEncCandidates {
-                                        message,
-                                        key,
-                                        rand,
-                                    })
-                            } else {
-                                side_condition = false;
-                                None
-                            }
-                        }
-                    } else {
-                        None
-                    }
-                    // } else {None}
-                }
-                _ => None,
-            })
-            .unique()
-            .collect_vec();
+        // the encryptions of the protocol, with variables unchanged
+        let candidates_enc =
+            self.encryptions(pbl.protocol(), pbl.protocol().list_top_level_terms());
 
         let candidates = candidates_verif.into_iter().filter_map(
             move |IntCtxtVerifCandidates { cipher, key }| {
@@ -293,8 +313,7 @@ impl<'bump> IntCtxt<'bump> {
                     .cast(MESSAGE.as_sort(), r_var.into_formula());
                 let max_var = max_var + 2;
 
-                let k_sc = side_condition
-                    && subterm_key
+                let k_sc = subterm_key
                         .preprocess_terms(
                             &realm,
                             pbl.protocol(),
@@ -322,81 +341,44 @@ impl<'bump> IntCtxt<'bump> {
 
                     // let key_variables: BTreeSet<_> = key.get_free_vars().into_iter().collect();
 
-                    let other_sc = {
-                        // ensure r is well used
-                        // the candidate with the right key (message, rand, unifier_key)
-                        #[allow(clippy::needless_borrow)]
-                        let candidates_enc = candidates_enc
-                            .iter()
-                            .tuple_combinations::<(_, _)>()
-                            .filter_map(
-                                |(
-                                    IntCtxtEncCandidates {
-                                        rand: r1,
-                                        message: m1,
-                                        key: k1,
-                                    },
-                                    IntCtxtEncCandidates {
-                                        rand: r2,
-                                        message: m2,
-                                        key: k2,
-                                    },
-                                )| {
-                                    fn unify<'bump>(
-                                        a: &ARichFormula<'bump>,
-                                        b: &ARichFormula<'bump>,
-                                    ) -> Option<Vec<ARichFormula<'bump>>>
-                                    {
-                                        Unifier::mgu(a, b).map(|u| {
-                                            u.as_equalities()
-                                                .unwrap_or(vec![TRUE.clone().into_arc()])
-                                        })
-                                    }
-                                    let unifier_k = unify(&k_f, &k1)?;
-
-                                    let r2 = r2.translate_vars(max_var).into_arc();
-                                    let unfier_r = unify(&r1, &r2)?;
-
-                                    let k2 = k2.translate_vars(max_var).into_arc();
-                                    let unifier_k12 = unify(&k1, &k2)?;
-
-                                    let m2 = m2.translate_vars(max_var).into_arc();
-                                    let unifier_m = unify(&m1, &m2)?;
-
-                                    let free_vars = BTreeSet::from_iter(
-                                        [&r1, &m1, &k1, &r2, &m2, &r2]
-                                            .into_iter()
-                                            .flat_map(|f| f.free_vars_iter()),
-                                    );
-
-                                    Some(forall(
-                                        free_vars,
-                                        ands(itertools::chain!(unfier_r, unifier_k,))
-                                            >> ands(itertools::chain!(unifier_k12, unifier_m)),
-                                    ))
-                                },
-                            );
-                        ands(candidates_enc)
-                    };
-                    let _max_var = 2 * max_var;
-                    // candidates_enc
-                    //     .iter()
-                    //     .map(|IntCtxtEncCandidates { rand, message, key }| {
-                    //         let free_vars = rand
-                    //             .get_free_vars()
-                    //             .iter()
-                    //             .chain(message.get_free_vars().iter())
-                    //             .chain(key.get_free_vars().iter())
-                    //             // .map(|v: &&Variable<'bump>| **v)
-                    //             .unique()
-                    //             .cloned()
-                    //             .collect_vec();
-                    //         mforall!(free_vars, {
-                    //             meq(r_var, rand.shallow_copy())
-                    //                 >> (meq(message.shallow_copy(), u_f.clone())
-                    //                     & meq(key.shallow_copy(), k_f.clone()))
-                    //         })
-                    //     });
+                    // ensure the randomness is well used: a name nothing else depends on, with
+                    // only one message under that key
+                    let encs = itertools::chain!(candidates_enc.clone(), self.encryptions(pbl.protocol(), [&cipher]))
+                        .unique()
+                        .filter(|enc| !are_distinct_names(&enc.key, &k_f))
+                        .collect_vec();
+                    let encs1 = encs.iter().map(|e| e.translate_vars(max_var)).collect_vec();
+                    let encs2 = encs
+                        .iter()
+                        .map(|e| e.translate_vars(2 * max_var))
+                        .collect_vec();
+                    for IntCtxtEncCandidates { rand, .. } in &encs1 {
+                        let name = match rand.as_ref() {
+                            RichFormula::Fun(f, args) if f == cast_messages => &args[0],
+                            _ => return None,
+                        };
+                        let leaked = subterm_rand
+                            .preprocess_terms(
+                                &realm,
+                                pbl.protocol(),
+                                name,
+                                pbl.protocol()
+                                    .list_top_level_terms_short_lifetime_and_bvars()
+                                    .chain([cipher.shallow_copy().into()]),
+                                false,
+                                NO_REC_MACRO,
+                            )
+                            .next()
+                            .is_some();
+                        if leaked {
+                            return None;
+                        }
+                    }
+                    let other_sc = ands(
+                        (0..encs.len())
+                            .flat_map(|i| (i..encs.len()).map(move |j| (i, j)))
+                            .filter_map(|(i, j)| encs1[i].different_if_reused(&encs2[j], &k_f, ev)),
+                    );
 
                     Some(mforall!(free_vars, {
                         (/* pbl.evaluator()
@@ -482,6 +464,82 @@ struct IntCtxtEncCandidates<'bump> {
     key: ARichFormula<'bump>,
 }
 
+impl<'bump> IntCtxtEncCandidates<'bump> {
+    fn translate_vars(&self, i: uvar) -> Self {
+        let Self { rand, message, key } = self;
+        let [rand, message, key] = [rand, message, key].map(|f| f.translate_vars(i).into_arc());
+        Self { rand, message, key }
+    }
+
+    /// What must hold for the randomness not to be used for two messages under the key `k`
+    /// (`None` if there is no way it could be).
+    fn different_if_reused(
+        &self,
+        other: &Self,
+        k: &ARichFormula<'bump>,
+        ev: &Evaluator<'bump>,
+    ) -> Option<ARichFormula<'bump>> {
+        if are_distinct_names(&self.rand, &other.rand) || are_distinct_names(&self.key, &other.key)
+        {
+            return None;
+        }
+
+        // when both use the same randomness and key, their parameters agree
+        let mut subst = MultipleVarSubst::new();
+        for (a, b) in [(&self.rand, &other.rand), (&self.key, &other.key)] {
+            if let (Some((_, a)), Some((_, b))) = (as_name(a), as_name(b)) {
+                for (a, b) in a.iter().zip(b.iter()) {
+                    match b.as_ref() {
+                        RichFormula::Var(b) if subst.maybe_get(b.id).is_none() => {
+                            subst.add(b.id, a.shallow_copy())
+                        }
+                        _ => (),
+                    }
+                }
+            }
+        }
+        if other.message.apply_substitution2(&subst) == self.message {
+            return None;
+        }
+
+        let vars: BTreeSet<_> = [self, other]
+            .into_iter()
+            .flat_map(|e| [&e.rand, &e.message, &e.key])
+            .flat_map(|f| f.free_vars_iter())
+            .collect();
+        let same = |a: &ARichFormula<'bump>, b: &ARichFormula<'bump>| {
+            meq(ev.eval(a.clone()), ev.eval(b.clone()))
+        };
+        Some(forall(
+            vars,
+            ands([
+                same(&self.rand, &other.rand),
+                same(&self.key, k),
+                same(&other.key, k),
+            ]) >> same(&self.message, &other.message),
+        ))
+    }
+}
+
+/// the name under the cast to a message
+fn as_name<'a, 'bump>(
+    f: &'a ARichFormula<'bump>,
+) -> Option<(Function<'bump>, &'a [ARichFormula<'bump>])> {
+    match f.as_ref() {
+        RichFormula::Fun(_, args) if args.len() == 1 => match args[0].as_ref() {
+            RichFormula::Fun(fun, name_args) if args[0].get_sort().ok() == Some(*NAME) => {
+                Some((*fun, name_args.as_ref()))
+            }
+            _ => None,
+        },
+        _ => None,
+    }
+}
+
+fn are_distinct_names<'bump>(a: &ARichFormula<'bump>, b: &ARichFormula<'bump>) -> bool {
+    matches!((as_name(a), as_name(b)), (Some((f, _)), Some((g, _))) if f != g)
+}
+
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct KeyAux<'bump> {
     int_ctxt: IntCtxt<'bump>,
-- 
2.43.0


From 8665475ef627e5b49f773110ca70128810b4fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 36/39] fix: the operands and the result of && and || in a step
 are conditions

---
 .../cryptovampire/src/parser/parser/parsable_trait.rs  | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 6c29ffa..761735e 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -868,16 +868,22 @@ where
                         &self.terms,
                     ),
                     Realm::Symbolic => {
+                        let condition = CONDITION.as_sort();
+                        expected_sort
+                            .into_iter()
+                            .try_for_each(|s| s.expects(condition, state))
+                            .with_location(|| &self.span)?;
+
                         let mut iter = self.terms.iter();
                         let first = iter
                             .next()
                             .unwrap() // can't fail
-                            .parse(env, bvars, state, expected_sort.clone())
+                            .parse(env, bvars, state, Some(condition.into()))
                             .debug_continue()?;
                         iter.try_fold(first, |acc, t| {
                             Ok(function.get_function().f([
                                 acc,
-                                t.parse(env, bvars, state, expected_sort.clone())
+                                t.parse(env, bvars, state, Some(condition.into()))
                                     .debug_continue()?,
                             ]))
                         })
-- 
2.43.0


From 6d89ec46e3d88f6fc5a54140c01d1836dc5ccf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:48 +0000
Subject: [PATCH 37/39] fix: an assumption made twice is made once, rather than
 overflowing the stack

---
 .../parser/parse_step_cell_asserts/assert_crypto.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs
index bd3e5e3..89a985c 100644
--- a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs
+++ b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs
@@ -29,10 +29,15 @@ where
     S: Pstr,
     for<'b> StrRef<'b>: From<&'b S>,
 {
-    crypto
-        .into_iter()
-        .map(|ac| parse_assert_crypto(env, ac))
-        .collect()
+    // assuming the same thing twice is assuming it once
+    let mut assumptions = Vec::new();
+    for ac in crypto {
+        let assumption = parse_assert_crypto(env, ac)?;
+        if !assumptions.contains(&assumption) {
+            assumptions.push(assumption)
+        }
+    }
+    Ok(assumptions)
 }
 
 pub fn parse_assert_crypto<'str, 'bump, S>(
-- 
2.43.0


From a5e78f85239615ff12182bc1c665d8d7e9a61acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:28 +0000
Subject: [PATCH 38/39] fix: with --legacy-evaluate, only functions of equal
 arguments are equal

---
 .../cryptovampire/src/problem/general_assertions/evaluate.rs  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
index 1a8d095..8bced86 100644
--- a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
@@ -178,8 +178,8 @@ pub fn generate<'bump>(
                             .collect_vec();
 
                         let premise =
-                            formula::ands(vars1.iter().zip(vars2.iter()).map(|(v1, _v2)| {
-                                meq(pbl.evaluator().eval(v1), pbl.evaluator().eval(v1))
+                            formula::ands(vars1.iter().zip(vars2.iter()).map(|(v1, v2)| {
+                                meq(pbl.evaluator().eval(v1), pbl.evaluator().eval(v2))
                             }));
                         let conclusion = meq(
                             pbl.evaluator().eval(f.f(&vars1)), //.map(|v| v.into_formula()))),
-- 
2.43.0


From 7942baab5192f44818dabf3080b240ea9ad2c34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:41 +0000
Subject: [PATCH 39/39] fix: refuse names whose arguments are messages, as they
 are told apart by them

---
 crates/cryptovampire/src/parser/parser/declare.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/declare.rs b/crates/cryptovampire/src/parser/parser/declare.rs
index a0cd1c5..2e2f978 100644
--- a/crates/cryptovampire/src/parser/parser/declare.rs
+++ b/crates/cryptovampire/src/parser/parser/declare.rs
@@ -201,6 +201,14 @@ where
                 .map(user_bool_to_condtion)
         }?;
         let fun = if output_sort == NAME.as_sort() {
+            // names are told apart by their arguments, which what a message evaluates to can't do
+            if let Some((idn, _)) = fun
+                .args()
+                .zip(input_sorts.iter().flatten())
+                .find(|(_, s)| s.is_evaluatable())
+            {
+                bail_at!(&idn.span, "the arguments of a name can't be messages");
+            }
             Function::new_from_inner(
                 env.container,
                 InnerFunction::Name(Name::new(name.to_string(), MESSAGE.as_sort(), input_sorts?)),
-- 
2.43.0

