From 03de7e60f930934c34dd85a22112c85eb931fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 01/20] fix: report errors when flushing generated code to its
 output file

---
 lapex-codegen/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lapex-codegen/src/lib.rs b/lapex-codegen/src/lib.rs
index cd9a4ae..22ac0fd 100644
--- a/lapex-codegen/src/lib.rs
+++ b/lapex-codegen/src/lib.rs
@@ -46,7 +46,9 @@ impl<'writer> GeneratedCodeWriter<'writer> {
             code_generator(writer)
         } else {
             let mut sink = (self.default_writer_fun)(key)?;
-            code_generator(&mut sink)
+            code_generator(&mut sink)?;
+            // dropping a buffered writer would discard errors on the final write
+            sink.flush()
         }
     }
 }
-- 
2.43.0


From a0f372cd3908c1f873f716a27d2a1009be4cf86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 02/20] fix: exit with a failure status when the CLI reports
 errors

---
 lapex-cli/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lapex-cli/src/main.rs b/lapex-cli/src/main.rs
index 9f3d6f5..e985615 100644
--- a/lapex-cli/src/main.rs
+++ b/lapex-cli/src/main.rs
@@ -1,4 +1,4 @@
-use std::path::Path;
+use std::{path::Path, process::ExitCode};
 
 use clap::{arg, command, Args, Parser, Subcommand};
 use lapex::{generate, Language, ParsingAlgorithm};
@@ -45,7 +45,7 @@ struct DebugArgs {
     algorithm: ParsingAlgorithm,
 }
 
-fn main() {
+fn main() -> ExitCode {
     let cli = CommandLine::parse();
     match cli.command {
         Commands::Generate(cmd) => {
@@ -66,6 +66,7 @@ fn main() {
                             eprintln!();
                         }
                     }
+                    return ExitCode::FAILURE;
                 }
                 _ => {}
             }
@@ -93,6 +94,7 @@ fn main() {
                             eprintln!();
                         }
                     }
+                    return ExitCode::FAILURE;
                 }
                 _ => {
                     assert!(
@@ -159,4 +161,5 @@ fn main() {
             }
         }
     }
+    ExitCode::SUCCESS
 }
-- 
2.43.0


From e61081f92304cb5ddbbdd88eb7285429c46d2e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 03/20] fix: accept an input only when its end follows the
 entry rule

The LR and GLR tables accepted on the first goto over the entry symbol,
whatever the lookahead was, so trailing tokens were silently ignored and
left-recursive entry rules could not be parsed.
---
 .../src/lr_parser/action_goto.rs              | 16 ++++---
 .../src/lr_parser/parser_impl.h.tpl           | 20 ++++----
 lapex-parser/src/lr_parser/item.rs            |  4 ++
 lapex-parser/src/lr_parser/mod.rs             | 48 ++++++++++---------
 lapex-rust-codegen/src/glr_parser/mod.rs      | 43 ++++++++---------
 lapex-rust-codegen/src/lr_parser/mod.rs       | 40 ++++++----------
 6 files changed, 82 insertions(+), 89 deletions(-)

diff --git a/lapex-cpp-codegen/src/lr_parser/action_goto.rs b/lapex-cpp-codegen/src/lr_parser/action_goto.rs
index 1f3f884..39ea251 100644
--- a/lapex-cpp-codegen/src/lr_parser/action_goto.rs
+++ b/lapex-cpp-codegen/src/lr_parser/action_goto.rs
@@ -39,7 +39,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         symbol: Symbol,
     ) -> Result<bool, Error> {
         Ok(match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Accept => {
+            TableEntry::Shift { target: _ } => {
                 write!(output, "case ")?;
 
                 if let Symbol::NonTerminal(_) = symbol {
@@ -67,11 +67,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         writeln!(output, "{{")?;
         match entry {
             TableEntry::Shift { target } => {
-                writeln!(output, "Transition transition{{{}, false}};", target)?;
-                writeln!(output, "return transition;")?;
-            }
-            TableEntry::Accept => {
-                writeln!(output, "Transition transition{{0, true}};")?;
+                writeln!(output, "Transition transition{{{}}};", target)?;
                 writeln!(output, "return transition;")?;
             }
             _ => (),
@@ -137,6 +133,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 writeln!(output, "Action act{{ActionType::Reduce, {}}};", rule_index)?;
                 writeln!(output, "return act;")?;
             }
+            TableEntry::Accept => {
+                writeln!(output, "Action act{{ActionType::Accept, 0}};")?;
+                writeln!(output, "return act;")?;
+            }
             _ => (),
         }
         writeln!(output, "}}")
@@ -149,7 +149,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         symbol: Symbol,
     ) -> Result<bool, Error> {
         Ok(match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => {
                 write!(output, "case ")?;
 
                 match symbol {
diff --git a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
index 053d07b..26dd99c 100644
--- a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
@@ -30,6 +30,7 @@ namespace parser
     {
         Shift,
         Reduce,
+        Accept,
     };
 
     struct Action
@@ -41,7 +42,6 @@ namespace parser
     struct Transition
     {
         uint32_t next_state;
-        bool is_accepting;
     };
 
     Action determine_action(uint32_t state, const lexer::TokenType &lookahead_tpken);
@@ -69,7 +69,7 @@ namespace parser
         Symbol entry_symbol{SymbolKind::State, static_cast<uint32_t>(/*{entry_state}*/)};
         parse_stack.push_back(entry_symbol);
 
-        while (parse_stack.size() > 0)
+        while (true)
         {
             auto next_token_and_data = lookahead.front();
             lexer::TokenType next_tk = next_token_and_data.first;
@@ -91,19 +91,15 @@ namespace parser
                 reduce_stack(action.reduced_rule, parse_stack, rev_reduced_symbols);
                 reduce_visitor(this->visitor, rev_reduced_symbols, action.reduced_rule);
             }
-            Symbol current_symbol = parse_stack.back();
-            uint32_t stack_state = parse_stack.at(parse_stack.size() - 2).identifier;
-            Transition transition = retrieve_next_state(stack_state, current_symbol);
-            if (transition.is_accepting)
-            {
-                parse_stack.pop_back();
-                parse_stack.pop_back();
-            }
             else
             {
-                Symbol next_state_symbol{SymbolKind::State, transition.next_state};
-                parse_stack.push_back(next_state_symbol);
+                return;
             }
+            Symbol current_symbol = parse_stack.back();
+            uint32_t stack_state = parse_stack.at(parse_stack.size() - 2).identifier;
+            Transition transition = retrieve_next_state(stack_state, current_symbol);
+            Symbol next_state_symbol{SymbolKind::State, transition.next_state};
+            parse_stack.push_back(next_state_symbol);
         }
     }
 }
diff --git a/lapex-parser/src/lr_parser/item.rs b/lapex-parser/src/lr_parser/item.rs
index 43e8d6b..301155b 100644
--- a/lapex-parser/src/lr_parser/item.rs
+++ b/lapex-parser/src/lr_parser/item.rs
@@ -177,6 +177,10 @@ impl<'grammar, 'rules, const N: usize> Item<'grammar, 'rules, N> {
     pub fn rule(&self) -> &'grammar Rule<'rules> {
         self.rule.0
     }
+
+    pub fn is_completed_entry(&self) -> bool {
+        self.rule.lhs().is_none() && self.symbol_after_dot().is_none()
+    }
 }
 
 impl<'grammar, 'rules, const N: usize> Display for Item<'grammar, 'rules, N> {
diff --git a/lapex-parser/src/lr_parser/mod.rs b/lapex-parser/src/lr_parser/mod.rs
index 2162ba7..8df21e9 100644
--- a/lapex-parser/src/lr_parser/mod.rs
+++ b/lapex-parser/src/lr_parser/mod.rs
@@ -188,15 +188,13 @@ fn generate_parser_graph<'grammar: 'rules, 'rules, const N: usize>(
         for item in item_set {
             if let Some(transition_symbol) = item.symbol_after_dot() {
                 let mut target_item = item.clone();
-                if target_item.rule().lhs().is_some() {
-                    target_item.advance_dot();
-                    let target_item_set =
-                        expand_item(target_item, first_sets, &rules_map, &mut item_set_cache);
-                    let transition_set = transition_map
-                        .entry(transition_symbol)
-                        .or_insert(ItemHashSet::new());
-                    transition_set.extend(target_item_set.iter().map(|i| i.clone()));
-                }
+                target_item.advance_dot();
+                let target_item_set =
+                    expand_item(target_item, first_sets, &rules_map, &mut item_set_cache);
+                let transition_set = transition_map
+                    .entry(transition_symbol)
+                    .or_insert(ItemHashSet::new());
+                transition_set.extend(target_item_set.iter().map(|i| i.clone()));
             }
         }
         for (edge, item_set) in transition_map {
@@ -283,8 +281,10 @@ fn find_conflicts<'grammar, 'rules, const N: usize>(
     let mut conflicts = BTreeSet::new();
     for (item_set, state) in parser_graph.state_map.iter() {
         let mut reducing_items: BTreeMap<[Symbol; N], Vec<&Item<N>>> = BTreeMap::new();
+        // completing the entry rule is not a reduction, it acts like a shift of the end symbol
+        let is_accepting = item_set.iter().any(|item| item.is_completed_entry());
         for item in item_set {
-            if item.symbol_after_dot().is_none() {
+            if item.symbol_after_dot().is_none() && !item.is_completed_entry() {
                 reducing_items
                     .entry(item.lookahead().clone())
                     .or_insert(Vec::new())
@@ -299,11 +299,14 @@ fn find_conflicts<'grammar, 'rules, const N: usize>(
                 });
             } else if reducing_items.len() == 1 {
                 let outgoing_edges = parser_graph.graph.edges_directed(*state, Outgoing);
-                for edge in outgoing_edges {
+                let shift_symbols = outgoing_edges
+                    .map(|edge| *edge.weight())
+                    .chain(is_accepting.then_some(Symbol::End));
+                for shift_symbol in shift_symbols {
                     if N > 1 {
                         panic!("LR(N) with N > 1 not supported");
                     } else if N == 1 {
-                        if lookahead[0] == *edge.weight() {
+                        if lookahead[0] == shift_symbol {
                             conflicts.insert(Conflict::ShiftReduce {
                                 state: state.index(),
                                 item_to_reduce: reducing_items
@@ -311,7 +314,7 @@ fn find_conflicts<'grammar, 'rules, const N: usize>(
                                     .map(|i| i.to_lr0())
                                     .unwrap()
                                     .clone(),
-                                shift_symbol: *edge.weight(),
+                                shift_symbol,
                             });
                         }
                     } else {
@@ -322,7 +325,7 @@ fn find_conflicts<'grammar, 'rules, const N: usize>(
                                 .map(|i| i.to_lr0())
                                 .unwrap()
                                 .clone(),
-                            shift_symbol: *edge.weight(),
+                            shift_symbol,
                         });
                     }
                 }
@@ -491,7 +494,7 @@ fn build_table<'grammar, 'rules, const N: usize>(
     for (item_set, state) in parser_graph.state_map.iter() {
         for item in item_set {
             // we can continue after this since there can be at most one reducable (conflicts already checked)
-            if item.symbol_after_dot().is_none() {
+            if item.symbol_after_dot().is_none() && !item.is_completed_entry() {
                 match N {
                     0 => {
                         for symbol in grammar.symbols().chain(std::iter::once(Symbol::End)) {
@@ -511,18 +514,17 @@ fn build_table<'grammar, 'rules, const N: usize>(
             .map(|e| (*e.weight(), e.target()))
             .collect();
         for symbol in grammar.symbols() {
-            if symbol == *grammar.entry_point() && state.index() == entry_state {
-                table.insert_accept(*state, symbol);
+            if let Some(target) = reachable_states.get(&symbol) {
+                table.insert_shift(*state, symbol, *target);
             } else {
-                if let Some(target) = reachable_states.get(&symbol) {
-                    table.insert_shift(*state, symbol, *target);
-                } else {
-                    if table.get_entry(state.index(), symbol).is_none() {
-                        table.insert_error(*state, symbol);
-                    }
+                if table.get_entry(state.index(), symbol).is_none() {
+                    table.insert_error(*state, symbol);
                 }
             }
         }
+        if item_set.iter().any(|item| item.is_completed_entry()) {
+            table.insert_accept(*state, Symbol::End);
+        }
     }
     table
 }
diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 07e85e9..b9256f8 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -212,12 +212,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             match entry {
                 TableEntry::Shift { target } => {
                     gotos.push(quote! {
-                        #condition => Some(Goto::State { state_id: #target }),
-                    });
-                }
-                TableEntry::Accept => {
-                    gotos.push(quote! {
-                        #condition => Some(Goto::Accept),
+                        #condition => Some(#target),
                     });
                 }
                 _ => (),
@@ -302,6 +297,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             Action::Reduce { rule: ReducedRule::#rule_name }
                         });
                     }
+                    TableEntry::Accept => {
+                        actions_for_entry.push(quote! {
+                            Action::Accept
+                        });
+                    }
                     _ => (),
                 }
             }
@@ -320,7 +320,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         expected_symbols: &mut BTreeSet<Option<SymbolIdx>>,
     ) {
         match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => match symbol {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => match symbol {
                 Symbol::Terminal(token_index) => {
                     expected_symbols.insert(Some(token_index));
                 }
@@ -433,12 +435,8 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
             enum Action {
                 Shift,
-                Reduce { rule: ReducedRule }
-            }
-
-            enum Goto {
+                Reduce { rule: ReducedRule },
                 Accept,
-                State { state_id: usize }
             }
 
             type StateId = usize;
@@ -516,7 +514,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     }
                 }
 
-                fn next_goto(&self, state: &usize, symbol: &StackSymbol) -> Option<Goto> {
+                fn next_goto(&self, state: &usize, symbol: &StackSymbol) -> Option<StateId> {
                     match (state, symbol) {
                         #(#gotos)*
                         (_, _) => None,
@@ -560,7 +558,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             for stack in reduced {
                                 let state = *stack.top().unwrap();
                                 match self.next_goto(&state, &new_symbol) {
-                                    Some(Goto::State { state_id }) => {
+                                    Some(state_id) => {
                                         stack.record(RecordedVisit::Shift {
                                             token: next_token,
                                             data: next_data.clone(),
@@ -568,7 +566,6 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                                         let new_node = stack.push(Some(state_id), Some(new_symbol));
                                         new_stacks.push(new_node);
                                     }
-                                    Some(Goto::Accept) => unreachable!(),
                                     None => (),
                                 }
                             }
@@ -613,13 +610,20 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                                                 self.apply_reduce(
                                                     reduced_rule,
                                                     &stack,
-                                                    &mut reduced,
                                                     &mut new_to_reduce,
                                                 );
                                             }
                                             Action::Shift => {
                                                 reduced.push(stack.clone_and_fork_record());
                                             }
+                                            Action::Accept => {
+                                                // remove the entry symbol and the entry state, only the root remains
+                                                for accepted in stack.unwind_stacks(2) {
+                                                    let (_edge, entry) = accepted.pop();
+                                                    let (_edge, root) = entry.pop();
+                                                    reduced.push(root);
+                                                }
+                                            }
                                         };
                                     }
                                 }
@@ -641,7 +645,6 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     &mut self,
                     reduced_rule: &ReducedRule,
                     stack: &GraphNode<usize, StackSymbol, RecordedVisit<T>>,
-                    accepted: &mut Vec<GraphNode<StateId, StackSymbol, RecordedVisit<T>>>,
                     new_to_reduce: &mut Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>,
                 ) {
                     let (to_pop, reduced_symbol) = self.get_rule_reduction(&reduced_rule);
@@ -657,15 +660,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         }
                         let state = *stack.top().unwrap();
                         match self.next_goto(&state, &reduced_symbol) {
-                            Some(Goto::State { state_id }) => {
+                            Some(state_id) => {
                                 // push new non-terminal
                                 let new_node = stack.push(Some(state_id), Some(reduced_symbol));
                                 new_to_reduce.push(new_node);
                             }
-                            Some(Goto::Accept) => {
-                                let (_edge, root) = stack.pop();
-                                accepted.push(root);
-                            }
                             None => (),
                         }
                     }
diff --git a/lapex-rust-codegen/src/lr_parser/mod.rs b/lapex-rust-codegen/src/lr_parser/mod.rs
index 87cc0c8..079a992 100644
--- a/lapex-rust-codegen/src/lr_parser/mod.rs
+++ b/lapex-rust-codegen/src/lr_parser/mod.rs
@@ -159,12 +159,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             match entry {
                 TableEntry::Shift { target } => {
                     gotos.push(quote! {
-                        #condition => Goto::State { state_id: #target },
-                    });
-                }
-                TableEntry::Accept => {
-                    gotos.push(quote! {
-                        #condition => Goto::Accept,
+                        #condition => #target,
                     });
                 }
                 _ => (),
@@ -244,6 +239,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         #condition => Ok(Action::Reduce { rule: ReducedRule::#rule_name }),
                     });
                 }
+                TableEntry::Accept => {
+                    actions.push(quote! {
+                        #condition => Ok(Action::Accept),
+                    });
+                }
                 _ => (),
             }
         }
@@ -256,7 +256,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         expected_symbols: &mut Vec<Option<SymbolIdx>>,
     ) {
         match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => match symbol {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => match symbol {
                 Symbol::Terminal(token_index) => {
                     expected_symbols.push(Some(token_index));
                 }
@@ -370,12 +372,8 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
             enum Action {
                 Shift,
-                Reduce { rule: ReducedRule }
-            }
-
-            enum Goto {
+                Reduce { rule: ReducedRule },
                 Accept,
-                State { state_id: usize }
             }
 
             #[derive(Debug)]
@@ -415,7 +413,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     }
                 }
 
-                fn next_goto(&self, state: usize, symbol: StackSymbol) -> Goto {
+                fn next_goto(&self, state: usize, symbol: StackSymbol) -> usize {
                     match (state, symbol) {
                         #(#gotos)*
                         (_, _) => unreachable!()
@@ -443,7 +441,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let mut stack = Vec::new();
                     stack.push(StackSymbol::State { state_id: #entry });
 
-                    while !stack.is_empty() {
+                    loop {
                         let (next_token, _) = lookahead.front().unwrap();
                         let state = match stack.last().unwrap() {
                             StackSymbol::State { state_id } => *state_id,
@@ -461,24 +459,16 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             Action::Reduce { rule: reduced_rule } => {
                                 self.reduce_stack_and_visit(reduced_rule, &mut stack);
                             }
+                            Action::Accept => return Ok(()),
                         }
                         let current_symbol = stack.last().unwrap();
                         let state = match &stack[stack.len() - 2] {
                             StackSymbol::State { state_id } => *state_id,
                             _ => unreachable!()
                         };
-                        let goto = self.next_goto(state, *current_symbol);
-                        match goto {
-                            Goto::Accept => {
-                                stack.pop();
-                                stack.pop();
-                            }
-                            Goto::State { state_id } => {
-                                stack.push(StackSymbol::State { state_id })
-                            }
-                        }
+                        let state_id = self.next_goto(state, *current_symbol);
+                        stack.push(StackSymbol::State { state_id });
                     }
-                    Ok(())
                 }
             }
         };
-- 
2.43.0


From c298163881adc1ce297cd90c875c5a5cdce75670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 04/20] fix: do not request a token after the end in GLR
 parsers

---
 lapex-rust-codegen/src/glr_parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index b9256f8..b51fef5 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -549,11 +549,12 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
                         let (next_token, next_data) = lookahead.pop_front().unwrap();
                         let new_symbol = StackSymbol::Terminal { token: next_token };
-                        lookahead.push_back((self.token_function)().map_err(|e| ParserError::LexerError { inner: e })?);
 
                         let mut new_stacks = if reduced.iter().any(|s| s.top().is_none()) {
                             reduced
                         } else {
+                            lookahead.push_back((self.token_function)().map_err(|e| ParserError::LexerError { inner: e })?);
+
                             let mut new_stacks = Vec::new();
                             for stack in reduced {
                                 let state = *stack.top().unwrap();
-- 
2.43.0


From c63918e32174a90bcc4d67737ea0fb5b87a581c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 05/20] fix: substitute the entry symbol in the C++ LL parser
 template

---
 lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
index ee3e370..8d733c1 100644
--- a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
@@ -54,7 +54,7 @@ namespace parser
         std::stack<Symbol> parse_stack;
         Symbol end{SymbolKind::Terminal, static_cast<uint32_t>(lexer::TokenType::TK_EOF)};
         parse_stack.push(end);
-        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>({grammar_entry_non_terminal})};
+        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>(/*{grammar_entry_non_terminal}*/)};
         parse_stack.push(entry);
 
         while (parse_stack.size() > 0)
-- 
2.43.0


From 33d27fc53f86c129f480ec43aa62d2d4008c2f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 06/20] fix: match LL table cases against the C++ non-terminal
 enumeration

---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index 665a047..a6b37f8 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -153,12 +153,9 @@ impl<'parser> CodeWriter<'parser> {
     fn write_table_switch(&self, output: &mut dyn Write) -> Result<(), Error> {
         writeln!(output, "switch(non_terminal.identifier) {{")?;
         for non_terminal in self.grammar.non_terminals() {
-            let non_terminal_index = if let Symbol::NonTerminal(i) = non_terminal {
-                i
-            } else {
-                unreachable!()
-            };
-            writeln!(output, "case {}: {{", non_terminal_index)?;
+            write!(output, "case static_cast<uint32_t>(NonTerminalType::")?;
+            self.write_non_terminal_enum_name(non_terminal, output)?;
+            writeln!(output, "): {{")?;
             writeln!(output, "switch (lookahead) {{")?;
             for (terminal, token_name) in self.grammar.terminals_with_names() {
                 let entry = self.parser_table.get_production(non_terminal, &terminal);
-- 
2.43.0


From 6438d32d30b4c00342eefefc0dbb0e3ef6c21864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 07/20] fix: predict productions at the end of input in C++ LL
 parsers

---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index a6b37f8..49dcfa9 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -157,7 +157,11 @@ impl<'parser> CodeWriter<'parser> {
             self.write_non_terminal_enum_name(non_terminal, output)?;
             writeln!(output, "): {{")?;
             writeln!(output, "switch (lookahead) {{")?;
-            for (terminal, token_name) in self.grammar.terminals_with_names() {
+            let lookaheads = self
+                .grammar
+                .terminals_with_names()
+                .chain(std::iter::once((Symbol::End, "EOF")));
+            for (terminal, token_name) in lookaheads {
                 let entry = self.parser_table.get_production(non_terminal, &terminal);
                 if let Some(symbols) = entry {
                     writeln!(output, "case lexer::TokenType::TK_{}: {{", token_name)?;
-- 
2.43.0


From 5a6cf60f9d2be3b23423ba8ef80227c8fc021b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 08/20] fix: do not request a token after the end in C++ LL
 parsers

---
 lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
index 8d733c1..c222442 100644
--- a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
@@ -82,7 +82,10 @@ namespace parser
                 }
                 this->visitor.token(lookahead_tk, lookahead_token_and_data.second);
                 lookahead.pop();
-                lookahead.push(this->token_function());
+                if (parse_stack.size() > 0)
+                {
+                    lookahead.push(this->token_function());
+                }
             }
         }
     }
-- 
2.43.0


From 8d32174e6e0b56aea0218396f8c06441b6a224fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 09/20] fix: support regex repetitions with an exact count

---
 lapex-lexer/src/nfa/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lapex-lexer/src/nfa/mod.rs b/lapex-lexer/src/nfa/mod.rs
index 631f861..3a8f585 100644
--- a/lapex-lexer/src/nfa/mod.rs
+++ b/lapex-lexer/src/nfa/mod.rs
@@ -105,6 +105,9 @@ fn build_nfa_from_pattern<'rules>(
                             nfa.add_epsilon_transition(inner_end, previous);
                             nfa.add_epsilon_transition(inner_end, end);
                         }
+                        Some(max) if max == min => {
+                            nfa.add_epsilon_transition(inner_end, end);
+                        }
                         Some(max) => {
                             let additional_until_max = max - min;
                             let max_start = nfa.add_intermediate_state();
-- 
2.43.0


From 6753f41c0ff90fe4fe180cf4b3df113e48e01eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 10/20] fix: drop epsilon from the middle of production
 sequences

---
 lapex-parser/src/grammar_builder.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lapex-parser/src/grammar_builder.rs b/lapex-parser/src/grammar_builder.rs
index 17a0c07..b540a55 100644
--- a/lapex-parser/src/grammar_builder.rs
+++ b/lapex-parser/src/grammar_builder.rs
@@ -142,8 +142,17 @@ impl<'rules> GrammarBuilder<'rules> {
                     .into_iter()
                     .map(|pattern| self.transform_pattern(pattern, parent_rule))
                     .collect();
-                let symbols: Vec<Symbol> = symbols?.into_iter().flat_map(|v| v).collect();
-                Ok(symbols)
+                // epsilon contributes nothing to a sequence of other symbols
+                let symbols: Vec<Symbol> = symbols?
+                    .into_iter()
+                    .flat_map(|v| v)
+                    .filter(|s| *s != Symbol::Epsilon)
+                    .collect();
+                if symbols.is_empty() {
+                    Ok(vec![Symbol::Epsilon])
+                } else {
+                    Ok(symbols)
+                }
             }
             ProductionPattern::Alternative { elements } => {
                 let alt_symbol = self.get_temp_symbol()?;
-- 
2.43.0


From 82f28ef21709c7577fb453cbf61a599316373ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 11/20] fix: do not take a NUL character for the end of input
 in Rust lexers

---
 lapex-rust-codegen/src/lexer/mod.rs | 41 ++++++++++++++++-------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/lapex-rust-codegen/src/lexer/mod.rs b/lapex-rust-codegen/src/lexer/mod.rs
index da34992..b4cdfc6 100644
--- a/lapex-rust-codegen/src/lexer/mod.rs
+++ b/lapex-rust-codegen/src/lexer/mod.rs
@@ -60,19 +60,17 @@ impl<'grammar> LexerCodeWriter<'grammar> {
             let state_id = index.index();
             if state_id == 0 {
                 automaton_cases
-                    .push(quote! { (#state_id, 0) => { return Ok(TokenType::EndOfFile); } });
+                    .push(quote! { (#state_id, None) => { return Ok(TokenType::EndOfFile); } });
             }
             for (transition, target) in self.dfa.transitions_from(index) {
-                if *transition != 0 {
-                    let target_index = target.index();
-                    automaton_cases.push(quote! {
-                        (#state_id, #transition) => {
-                            let next_ch = self.char_iter.next().unwrap();
-                            self.position += next_ch.len_utf8();
-                            state = #target_index;
-                        }
-                    });
-                }
+                let target_index = target.index();
+                automaton_cases.push(quote! {
+                    (#state_id, Some(#transition)) => {
+                        let next_ch = self.char_iter.next().unwrap();
+                        self.position += next_ch.len_utf8();
+                        state = #target_index;
+                    }
+                });
             }
             if let AutomatonState::Accepting(accept) = node {
                 let name: TokenStream = get_token_enum_name(accept.name).parse().unwrap();
@@ -85,7 +83,7 @@ impl<'grammar> LexerCodeWriter<'grammar> {
                 automaton_cases.push(quote! {
                     (#state_id, transition) => {
                         return Err(LexerError::UnexpectedAlphabet {
-                            range: Lexer::get_alphabet_range(transition).unwrap()
+                            range: transition.and_then(Lexer::get_alphabet_range).unwrap_or(0..=0)
                         });
                     }
                 });
@@ -160,13 +158,18 @@ impl<'grammar> LexerCodeWriter<'grammar> {
                     let mut state: usize = 0;
                     self.start = self.position;
                     loop {
-                        let next_ch = self.char_iter.peek().copied().map(|c| c as u32).unwrap_or(0);
-                        let symbol = if let Some(symbol) = Lexer::get_alphabet_index(next_ch) {
-                            symbol
-                        } else {
-                            return Err(LexerError::InvalidChar {
-                                bad_ch: next_ch
-                            });
+                        // there is no symbol at the end of the input
+                        let symbol = match self.char_iter.peek().copied().map(|c| c as u32) {
+                            Some(next_ch) => {
+                                if let Some(symbol) = Lexer::get_alphabet_index(next_ch) {
+                                    Some(symbol)
+                                } else {
+                                    return Err(LexerError::InvalidChar {
+                                        bad_ch: next_ch
+                                    });
+                                }
+                            }
+                            None => None,
                         };
                         match (state, symbol) {
                             #( #automaton_cases, )*
-- 
2.43.0


From 3e7725c598db73e52d647f5c7e65b84ae06d915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 12/20] fix: do not take a NUL character for the end of input
 in C++ lexers

---
 lapex-cpp-codegen/src/lexer/lexer.cpp.tpl |  9 +++++++++
 lapex-cpp-codegen/src/lexer/mod.rs        | 15 ++++++++-------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/lapex-cpp-codegen/src/lexer/lexer.cpp.tpl b/lapex-cpp-codegen/src/lexer/lexer.cpp.tpl
index c23e54f..bf47bb2 100644
--- a/lapex-cpp-codegen/src/lexer/lexer.cpp.tpl
+++ b/lapex-cpp-codegen/src/lexer/lexer.cpp.tpl
@@ -4,6 +4,9 @@ namespace lexer
 {
     Lexer::Lexer(std::istream &in) : in_chars(in), ch(-1), err(0), start_pos(0), end_pos(0), position(0) {}
 
+    // Larger than any code point.
+    static const uint32_t END_OF_INPUT = 0x110000;
+
     // Branchless UTF-8: https://github.com/skeeto/branchless-utf8
     void utf8_decode(std::istream &in, uint32_t *c, int *e)
     {
@@ -17,6 +20,12 @@ namespace lexer
 
         char buf[4] = {0};
         in.read(buf, 1);
+        if (in.gcount() == 0)
+        {
+            *c = END_OF_INPUT;
+            *e = 0;
+            return;
+        }
         uint8_t *s = (uint8_t *)buf;
         int len = lengths[s[0] >> 3];
         in.read(buf + 1, (len > 1) * (len - 1));
diff --git a/lapex-cpp-codegen/src/lexer/mod.rs b/lapex-cpp-codegen/src/lexer/mod.rs
index 800e74a..e5c5a50 100644
--- a/lapex-cpp-codegen/src/lexer/mod.rs
+++ b/lapex-cpp-codegen/src/lexer/mod.rs
@@ -47,6 +47,9 @@ impl<'lexer> LexerCodeWriter<'lexer> {
             writeln!(output, "i = {};", i)?;
             writeln!(output, "break;")?;
         }
+        writeln!(output, "case END_OF_INPUT:")?;
+        writeln!(output, "i = {};", self.alphabet.len())?;
+        writeln!(output, "break;")?;
         writeln!(output, "default:")?;
         writeln!(output, "return TokenType::TK_ERR;")?;
         writeln!(output, "}}")
@@ -60,16 +63,14 @@ impl<'lexer> LexerCodeWriter<'lexer> {
             writeln!(output, "switch (i)")?;
             writeln!(output, "{{")?;
             if index.index() == 0 {
-                writeln!(output, "case 0: ")?;
+                writeln!(output, "case {}: ", self.alphabet.len())?;
                 writeln!(output, "return TokenType::TK_EOF;")?;
             }
             for (transition, target) in self.dfa.transitions_from(index) {
-                if *transition != 0 {
-                    writeln!(output, "case {}: ", transition)?;
-                    writeln!(output, "this->ch = -1;")?;
-                    writeln!(output, "state = {};", target.index())?;
-                    writeln!(output, "break;")?;
-                }
+                writeln!(output, "case {}: ", transition)?;
+                writeln!(output, "this->ch = -1;")?;
+                writeln!(output, "state = {};", target.index())?;
+                writeln!(output, "break;")?;
             }
             writeln!(output, "default:")?;
             if let AutomatonState::Accepting(accept) = node {
-- 
2.43.0


From 6d5fc5f81719fd2f08db5bbb66e547ffa4bec3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 13/20] fix: report stream failures as errors in C++ lexers

---
 lapex-cpp-codegen/src/lexer/lexer.cpp.tpl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lapex-cpp-codegen/src/lexer/lexer.cpp.tpl b/lapex-cpp-codegen/src/lexer/lexer.cpp.tpl
index bf47bb2..3a4e3b3 100644
--- a/lapex-cpp-codegen/src/lexer/lexer.cpp.tpl
+++ b/lapex-cpp-codegen/src/lexer/lexer.cpp.tpl
@@ -23,7 +23,8 @@ namespace lexer
         if (in.gcount() == 0)
         {
             *c = END_OF_INPUT;
-            *e = 0;
+            // a stream that failed for any other reason has not reached its end
+            *e = in.bad() || !in.eof();
             return;
         }
         uint8_t *s = (uint8_t *)buf;
-- 
2.43.0


From 6595b3075c3fc504fcf67933980e3491096ce94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 14/20] fix: do not repeat a rule's tag for the operators
 inside it

---
 lapex-rust-codegen/src/glr_parser/mod.rs | 18 +++++++++++++++---
 lapex-rust-codegen/src/lr_parser/mod.rs  | 12 ++++++++++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index b51fef5..f2505d0 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -72,7 +72,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let comment: TokenStream = format!("///{}", rule.display(self.grammar))
                         .parse()
                         .unwrap();
-                    let tag = rule.rule().inner.tag;
+                    // a tag names a rule itself, not the anonymous rules of operators in it
+                    let tag = self
+                        .grammar
+                        .get_production_name(non_terminal)
+                        .and(rule.rule().inner.tag);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -114,7 +118,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             if rules.len() != 1 {
                 for (i, rule) in rules.iter().enumerate() {
                     let comment = format!("{}", rule.display(self.grammar));
-                    let tag = rule.rule().inner.tag;
+                    // a tag names a rule itself, not the anonymous rules of operators in it
+                    let tag = self
+                        .grammar
+                        .get_production_name(non_terminal)
+                        .and(rule.rule().inner.tag);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -365,7 +373,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 for (i, rule) in rules.iter().enumerate() {
                     let rule_index = self.rule_index_map.get(&(*rule as *const Rule)).unwrap();
                     let rule_name: TokenStream = format!("Rule{}", rule_index).parse().unwrap();
-                    let tag = rule.rule().inner.tag;
+                    // a tag names a rule itself, not the anonymous rules of operators in it
+                    let tag = self
+                        .grammar
+                        .get_production_name(non_terminal)
+                        .and(rule.rule().inner.tag);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
diff --git a/lapex-rust-codegen/src/lr_parser/mod.rs b/lapex-rust-codegen/src/lr_parser/mod.rs
index 079a992..a7283b6 100644
--- a/lapex-rust-codegen/src/lr_parser/mod.rs
+++ b/lapex-rust-codegen/src/lr_parser/mod.rs
@@ -68,7 +68,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let comment: TokenStream = format!("///{}", rule.display(self.grammar))
                         .parse()
                         .unwrap();
-                    let tag = rule.rule().inner.tag;
+                    // a tag names a rule itself, not the anonymous rules of operators in it
+                    let tag = self
+                        .grammar
+                        .get_production_name(non_terminal)
+                        .and(rule.rule().inner.tag);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -301,7 +305,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 for (i, rule) in rules.iter().enumerate() {
                     let rule_index = self.rule_index_map.get(&(*rule as *const Rule)).unwrap();
                     let rule_name: TokenStream = format!("Rule{}", rule_index).parse().unwrap();
-                    let tag = rule.rule().inner.tag;
+                    // a tag names a rule itself, not the anonymous rules of operators in it
+                    let tag = self
+                        .grammar
+                        .get_production_name(non_terminal)
+                        .and(rule.rule().inner.tag);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
-- 
2.43.0


From cdaf4aa4ff83fe75b65ce5ddd25c3f94c9e31aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 15/20] fix: do not treat gotos as shifts in LR(0) conflict
 checks and tables

---
 lapex-parser/src/lr_parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lapex-parser/src/lr_parser/mod.rs b/lapex-parser/src/lr_parser/mod.rs
index 8df21e9..f5f8d5d 100644
--- a/lapex-parser/src/lr_parser/mod.rs
+++ b/lapex-parser/src/lr_parser/mod.rs
@@ -299,8 +299,10 @@ fn find_conflicts<'grammar, 'rules, const N: usize>(
                 });
             } else if reducing_items.len() == 1 {
                 let outgoing_edges = parser_graph.graph.edges_directed(*state, Outgoing);
+                // transitions on non-terminals are gotos, only terminals are shifted
                 let shift_symbols = outgoing_edges
                     .map(|edge| *edge.weight())
+                    .filter(|symbol| !matches!(symbol, Symbol::NonTerminal(_)))
                     .chain(is_accepting.then_some(Symbol::End));
                 for shift_symbol in shift_symbols {
                     if N > 1 {
@@ -497,7 +499,7 @@ fn build_table<'grammar, 'rules, const N: usize>(
             if item.symbol_after_dot().is_none() && !item.is_completed_entry() {
                 match N {
                     0 => {
-                        for symbol in grammar.symbols().chain(std::iter::once(Symbol::End)) {
+                        for symbol in grammar.terminals().chain(std::iter::once(Symbol::End)) {
                             table.insert_reduce(*state, symbol, item.rule())
                         }
                     }
-- 
2.43.0


From c0e8be664603e0beb4b73cd45f50b90f49ae702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:59 +0000
Subject: [PATCH 16/20] fix: allow rules with more than 254 symbols in LR
 parsers

---
 lapex-parser/src/lr_parser/item.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-parser/src/lr_parser/item.rs b/lapex-parser/src/lr_parser/item.rs
index 301155b..3f0bb10 100644
--- a/lapex-parser/src/lr_parser/item.rs
+++ b/lapex-parser/src/lr_parser/item.rs
@@ -8,7 +8,7 @@ use lapex_input::{ProductionRule, Spanned};
 
 use crate::grammar::{Grammar, Rule, Symbol};
 
-type DotIdx = u8;
+type DotIdx = u16;
 
 struct RuleRef<'grammar, 'rules>(pub &'grammar Rule<'rules>);
 
-- 
2.43.0


From 99756fbfcdafc21c90ca4c9f820f2506dd6b140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 17/20] fix: count lines and columns of grammar files in 32
 bits

A file with more than 65535 lines, or a line with more than 65535 bytes,
made the parser of grammar files overflow.
---
 lapex-input-gen/src/lib.rs | 8 ++++----
 lapex-input/src/lib.rs     | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index ceadc3d..ffb7877 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -514,8 +514,8 @@ impl LapexInputParser for GeneratedLapexInputParser {
         let mut lexer = lexer::Lexer::new(source);
         let mut stack = Vec::new();
         let visitor = LapexAstVisitor { stack: &mut stack };
-        let mut col: u16 = 1;
-        let mut line: u16 = 1;
+        let mut col: u32 = 1;
+        let mut line: u32 = 1;
         let token_fun = || {
             let mut next_tk = lexer.next().unwrap();
             loop {
@@ -526,7 +526,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
                         line += 1;
                     }
                     TokenType::TkWhitespace => {
-                        col += lexer.slice().len() as u16;
+                        col += lexer.slice().len() as u32;
                         next_tk = lexer.next().unwrap();
                     }
                     _ => break,
@@ -534,7 +534,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
             let start_line = line;
             let start_col = col;
-            col += lexer.slice().len() as u16;
+            col += lexer.slice().len() as u32;
 
             let token_data = TokenData {
                 text: lexer.slice(),
diff --git a/lapex-input/src/lib.rs b/lapex-input/src/lib.rs
index 0703817..84bd361 100644
--- a/lapex-input/src/lib.rs
+++ b/lapex-input/src/lib.rs
@@ -2,8 +2,8 @@ use std::fmt::{Display, Formatter};
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
 pub struct SourcePos {
-    pub line: u16,
-    pub col: u16,
+    pub line: u32,
+    pub col: u32,
 }
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
-- 
2.43.0


From e2fc65150af3119cfa16acfd8fc5fae1f25e41e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 18/20] fix: names with leading, trailing or doubled
 underscores in Rust code

The conversion to camel case panicked on the empty parts of names such as
a__b or list_.
---
 lapex-rust-codegen/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lapex-rust-codegen/src/lib.rs b/lapex-rust-codegen/src/lib.rs
index e6c398f..7602362 100644
--- a/lapex-rust-codegen/src/lib.rs
+++ b/lapex-rust-codegen/src/lib.rs
@@ -75,6 +75,10 @@ fn get_non_terminal_enum_name(grammar: &Grammar, non_terminal: Symbol) -> String
 fn convert_snake_to_upper_camel(name: &str) -> String {
     name.split('_')
         .map(|s| {
+            if s.is_empty() {
+                // leading, trailing or doubled underscore
+                return "_".to_string();
+            }
             let (head, tail) = s.split_at(1);
             format!("{}{}", head.to_ascii_uppercase(), tail.to_ascii_lowercase())
         })
-- 
2.43.0


From 90e3c1376a41410efcebed6812409fafb5112b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 19/20] fix: positions in grammar files count characters and
 lines inside tokens

Columns counted bytes while excerpts are cut by characters, so that after
non-ASCII text a diagnostic pointed beside its rule or the generator
panicked instead of reporting the error.
---
 lapex-input-gen/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index ffb7877..b4e455e 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -534,7 +534,15 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
             let start_line = line;
             let start_col = col;
-            col += lexer.slice().len() as u32;
+            // positions count characters, and a token body may span lines
+            for ch in lexer.slice().chars() {
+                if ch == '\n' {
+                    col = 1;
+                    line += 1;
+                } else {
+                    col += 1;
+                }
+            }
 
             let token_data = TokenData {
                 text: lexer.slice(),
-- 
2.43.0


From 4411dae2157f786267652ecf7847128f0ffbdb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 20/20] fix: lapex-cli debug: exit with a failure when the text
 could not be parsed

---
 lapex-cli/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lapex-cli/src/main.rs b/lapex-cli/src/main.rs
index e985615..91f70ef 100644
--- a/lapex-cli/src/main.rs
+++ b/lapex-cli/src/main.rs
@@ -157,6 +157,9 @@ fn main() -> ExitCode {
                         eprintln!("Failed to parse {}", source_path.display());
                     }
                     target_dir.close().unwrap();
+                    if !exit_code.success() {
+                        return ExitCode::FAILURE;
+                    }
                 }
             }
         }
-- 
2.43.0

