From d2d3c7dd0ce330ed1ae282d9b2a940d6abb62ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 01/19] fix: fill in the entry symbol of the C++ LL parser
 template

---
 lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
index ee3e370..8d733c1 100644
--- a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
@@ -54,7 +54,7 @@ namespace parser
         std::stack<Symbol> parse_stack;
         Symbol end{SymbolKind::Terminal, static_cast<uint32_t>(lexer::TokenType::TK_EOF)};
         parse_stack.push(end);
-        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>({grammar_entry_non_terminal})};
+        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>(/*{grammar_entry_non_terminal}*/)};
         parse_stack.push(entry);
 
         while (parse_stack.size() > 0)
-- 
2.43.0


From c2678b3dcc059a3b45700c50ccc14b8cb2ab9825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 02/19] fix: switch over the enumerators in the C++ LL table,
 not over symbol indices

---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index 665a047..f941ec4 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -151,14 +151,14 @@ impl<'parser> CodeWriter<'parser> {
     }
 
     fn write_table_switch(&self, output: &mut dyn Write) -> Result<(), Error> {
-        writeln!(output, "switch(non_terminal.identifier) {{")?;
+        writeln!(
+            output,
+            "switch(static_cast<NonTerminalType>(non_terminal.identifier)) {{"
+        )?;
         for non_terminal in self.grammar.non_terminals() {
-            let non_terminal_index = if let Symbol::NonTerminal(i) = non_terminal {
-                i
-            } else {
-                unreachable!()
-            };
-            writeln!(output, "case {}: {{", non_terminal_index)?;
+            write!(output, "case NonTerminalType::")?;
+            self.write_non_terminal_enum_name(non_terminal, output)?;
+            writeln!(output, ": {{")?;
             writeln!(output, "switch (lookahead) {{")?;
             for (terminal, token_name) in self.grammar.terminals_with_names() {
                 let entry = self.parser_table.get_production(non_terminal, &terminal);
-- 
2.43.0


From 647b633ddff2ea9004f1d42215d59e484b4171c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 03/19] fix: let the C++ LL parser choose productions at the
 end of the input

---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index f941ec4..6571dbf 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -150,6 +150,12 @@ impl<'parser> CodeWriter<'parser> {
         writeln!(output, "throw std::runtime_error(\"{}\");", message)
     }
 
+    fn lookaheads_with_names(&self) -> impl Iterator<Item = (Symbol, &str)> {
+        self.grammar
+            .terminals_with_names()
+            .chain(std::iter::once((Symbol::End, "EOF")))
+    }
+
     fn write_table_switch(&self, output: &mut dyn Write) -> Result<(), Error> {
         writeln!(
             output,
@@ -160,7 +166,7 @@ impl<'parser> CodeWriter<'parser> {
             self.write_non_terminal_enum_name(non_terminal, output)?;
             writeln!(output, ": {{")?;
             writeln!(output, "switch (lookahead) {{")?;
-            for (terminal, token_name) in self.grammar.terminals_with_names() {
+            for (terminal, token_name) in self.lookaheads_with_names() {
                 let entry = self.parser_table.get_production(non_terminal, &terminal);
                 if let Some(symbols) = entry {
                     writeln!(output, "case lexer::TokenType::TK_{}: {{", token_name)?;
@@ -172,8 +178,7 @@ impl<'parser> CodeWriter<'parser> {
             writeln!(output, "default:")?;
             self.write_parser_table_error(
                 self.grammar.get_production_name(&non_terminal),
-                self.grammar
-                    .terminals_with_names()
+                self.lookaheads_with_names()
                     .filter(|(symbol, _)| {
                         self.parser_table
                             .get_production(non_terminal, symbol)
-- 
2.43.0


From 2c5429a7563e286f7339dc45ef65a289cefa7f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 04/19] fix: accept only at the end of the input, also for
 left-recursive entry productions

The accept entry was placed on the goto of the entry symbol from the entry
state. With a left-recursive entry it displaced the shift to the rest of the
input, and with LALR, LR(0) and GLR lookaheads a proper prefix was accepted.
The entry item now advances like any other one and accepts on end of file.
---
 .../src/lr_parser/action_goto.rs              | 17 +++----
 .../src/lr_parser/parser.cpp.tpl              |  2 +-
 .../src/lr_parser/parser_impl.h.tpl           | 26 ++++-------
 lapex-parser/src/lr_parser/mod.rs             | 36 +++++++--------
 lapex-rust-codegen/src/glr_parser/mod.rs      | 45 +++++++++----------
 lapex-rust-codegen/src/lr_parser/mod.rs       | 42 +++++++----------
 6 files changed, 74 insertions(+), 94 deletions(-)

diff --git a/lapex-cpp-codegen/src/lr_parser/action_goto.rs b/lapex-cpp-codegen/src/lr_parser/action_goto.rs
index 1f3f884..198ce3d 100644
--- a/lapex-cpp-codegen/src/lr_parser/action_goto.rs
+++ b/lapex-cpp-codegen/src/lr_parser/action_goto.rs
@@ -39,7 +39,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         symbol: Symbol,
     ) -> Result<bool, Error> {
         Ok(match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Accept => {
+            TableEntry::Shift { target: _ } => {
                 write!(output, "case ")?;
 
                 if let Symbol::NonTerminal(_) = symbol {
@@ -67,12 +67,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         writeln!(output, "{{")?;
         match entry {
             TableEntry::Shift { target } => {
-                writeln!(output, "Transition transition{{{}, false}};", target)?;
-                writeln!(output, "return transition;")?;
-            }
-            TableEntry::Accept => {
-                writeln!(output, "Transition transition{{0, true}};")?;
-                writeln!(output, "return transition;")?;
+                writeln!(output, "return {};", target)?;
             }
             _ => (),
         }
@@ -137,6 +132,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 writeln!(output, "Action act{{ActionType::Reduce, {}}};", rule_index)?;
                 writeln!(output, "return act;")?;
             }
+            TableEntry::Accept => {
+                writeln!(output, "Action act{{ActionType::Accept, 0}};")?;
+                writeln!(output, "return act;")?;
+            }
             _ => (),
         }
         writeln!(output, "}}")
@@ -149,7 +148,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         symbol: Symbol,
     ) -> Result<bool, Error> {
         Ok(match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => {
                 write!(output, "case ")?;
 
                 match symbol {
diff --git a/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl b/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl
index 493da7e..79c30ec 100644
--- a/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl
+++ b/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl
@@ -20,7 +20,7 @@ namespace parser
         /*{stack_reduce_table}*/
     }
 
-    Transition retrieve_next_state(uint32_t state, const Symbol &current_symbol)
+    uint32_t retrieve_next_state(uint32_t state, const Symbol &current_symbol)
     {
         /*{goto_table}*/
     }
diff --git a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
index 053d07b..7eb893f 100644
--- a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
@@ -30,6 +30,7 @@ namespace parser
     {
         Shift,
         Reduce,
+        Accept,
     };
 
     struct Action
@@ -38,17 +39,11 @@ namespace parser
         uint16_t reduced_rule;
     };
 
-    struct Transition
-    {
-        uint32_t next_state;
-        bool is_accepting;
-    };
-
     Action determine_action(uint32_t state, const lexer::TokenType &lookahead_tpken);
 
     void reduce_stack(uint32_t rule, std::vector<Symbol> &parse_stack, std::vector<Symbol> &rev_reduced_symbols);
 
-    Transition retrieve_next_state(uint32_t state, const Symbol &current_symbol);
+    uint32_t retrieve_next_state(uint32_t state, const Symbol &current_symbol);
 
     template <class T>
     void reduce_visitor(Visitor<T> &visitor, const std::vector<Symbol> &rev_reduced_symbols, uint32_t rule)
@@ -69,7 +64,7 @@ namespace parser
         Symbol entry_symbol{SymbolKind::State, static_cast<uint32_t>(/*{entry_state}*/)};
         parse_stack.push_back(entry_symbol);
 
-        while (parse_stack.size() > 0)
+        while (true)
         {
             auto next_token_and_data = lookahead.front();
             lexer::TokenType next_tk = next_token_and_data.first;
@@ -91,19 +86,14 @@ namespace parser
                 reduce_stack(action.reduced_rule, parse_stack, rev_reduced_symbols);
                 reduce_visitor(this->visitor, rev_reduced_symbols, action.reduced_rule);
             }
-            Symbol current_symbol = parse_stack.back();
-            uint32_t stack_state = parse_stack.at(parse_stack.size() - 2).identifier;
-            Transition transition = retrieve_next_state(stack_state, current_symbol);
-            if (transition.is_accepting)
-            {
-                parse_stack.pop_back();
-                parse_stack.pop_back();
-            }
             else
             {
-                Symbol next_state_symbol{SymbolKind::State, transition.next_state};
-                parse_stack.push_back(next_state_symbol);
+                return;
             }
+            Symbol current_symbol = parse_stack.back();
+            uint32_t stack_state = parse_stack.at(parse_stack.size() - 2).identifier;
+            Symbol next_state_symbol{SymbolKind::State, retrieve_next_state(stack_state, current_symbol)};
+            parse_stack.push_back(next_state_symbol);
         }
     }
 }
diff --git a/lapex-parser/src/lr_parser/mod.rs b/lapex-parser/src/lr_parser/mod.rs
index 2162ba7..bbbf82e 100644
--- a/lapex-parser/src/lr_parser/mod.rs
+++ b/lapex-parser/src/lr_parser/mod.rs
@@ -188,15 +188,13 @@ fn generate_parser_graph<'grammar: 'rules, 'rules, const N: usize>(
         for item in item_set {
             if let Some(transition_symbol) = item.symbol_after_dot() {
                 let mut target_item = item.clone();
-                if target_item.rule().lhs().is_some() {
-                    target_item.advance_dot();
-                    let target_item_set =
-                        expand_item(target_item, first_sets, &rules_map, &mut item_set_cache);
-                    let transition_set = transition_map
-                        .entry(transition_symbol)
-                        .or_insert(ItemHashSet::new());
-                    transition_set.extend(target_item_set.iter().map(|i| i.clone()));
-                }
+                target_item.advance_dot();
+                let target_item_set =
+                    expand_item(target_item, first_sets, &rules_map, &mut item_set_cache);
+                let transition_set = transition_map
+                    .entry(transition_symbol)
+                    .or_insert(ItemHashSet::new());
+                transition_set.extend(target_item_set.iter().map(|i| i.clone()));
             }
         }
         for (edge, item_set) in transition_map {
@@ -314,7 +312,8 @@ fn find_conflicts<'grammar, 'rules, const N: usize>(
                                 shift_symbol: *edge.weight(),
                             });
                         }
-                    } else {
+                    } else if reducing_items[0].rule().lhs().is_some() {
+                        // the completed entry rule only accepts at the end of the input
                         conflicts.insert(Conflict::ShiftReduce {
                             state: state.index(),
                             item_to_reduce: reducing_items
@@ -492,6 +491,11 @@ fn build_table<'grammar, 'rules, const N: usize>(
         for item in item_set {
             // we can continue after this since there can be at most one reducable (conflicts already checked)
             if item.symbol_after_dot().is_none() {
+                if item.rule().lhs().is_none() {
+                    // the entry rule is complete, so the whole input must have been read
+                    table.insert_accept(*state, Symbol::End);
+                    continue;
+                }
                 match N {
                     0 => {
                         for symbol in grammar.symbols().chain(std::iter::once(Symbol::End)) {
@@ -511,15 +515,11 @@ fn build_table<'grammar, 'rules, const N: usize>(
             .map(|e| (*e.weight(), e.target()))
             .collect();
         for symbol in grammar.symbols() {
-            if symbol == *grammar.entry_point() && state.index() == entry_state {
-                table.insert_accept(*state, symbol);
+            if let Some(target) = reachable_states.get(&symbol) {
+                table.insert_shift(*state, symbol, *target);
             } else {
-                if let Some(target) = reachable_states.get(&symbol) {
-                    table.insert_shift(*state, symbol, *target);
-                } else {
-                    if table.get_entry(state.index(), symbol).is_none() {
-                        table.insert_error(*state, symbol);
-                    }
+                if table.get_entry(state.index(), symbol).is_none() {
+                    table.insert_error(*state, symbol);
                 }
             }
         }
diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 07e85e9..99001d0 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -212,12 +212,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             match entry {
                 TableEntry::Shift { target } => {
                     gotos.push(quote! {
-                        #condition => Some(Goto::State { state_id: #target }),
-                    });
-                }
-                TableEntry::Accept => {
-                    gotos.push(quote! {
-                        #condition => Some(Goto::Accept),
+                        #condition => Some(#target),
                     });
                 }
                 _ => (),
@@ -302,6 +297,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             Action::Reduce { rule: ReducedRule::#rule_name }
                         });
                     }
+                    TableEntry::Accept => {
+                        actions_for_entry.push(quote! {
+                            Action::Accept
+                        });
+                    }
                     _ => (),
                 }
             }
@@ -320,7 +320,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         expected_symbols: &mut BTreeSet<Option<SymbolIdx>>,
     ) {
         match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => match symbol {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => match symbol {
                 Symbol::Terminal(token_index) => {
                     expected_symbols.insert(Some(token_index));
                 }
@@ -433,12 +435,8 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
             enum Action {
                 Shift,
-                Reduce { rule: ReducedRule }
-            }
-
-            enum Goto {
-                Accept,
-                State { state_id: usize }
+                Reduce { rule: ReducedRule },
+                Accept
             }
 
             type StateId = usize;
@@ -516,7 +514,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     }
                 }
 
-                fn next_goto(&self, state: &usize, symbol: &StackSymbol) -> Option<Goto> {
+                fn next_goto(&self, state: &usize, symbol: &StackSymbol) -> Option<StateId> {
                     match (state, symbol) {
                         #(#gotos)*
                         (_, _) => None,
@@ -560,7 +558,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             for stack in reduced {
                                 let state = *stack.top().unwrap();
                                 match self.next_goto(&state, &new_symbol) {
-                                    Some(Goto::State { state_id }) => {
+                                    Some(state_id) => {
                                         stack.record(RecordedVisit::Shift {
                                             token: next_token,
                                             data: next_data.clone(),
@@ -568,7 +566,6 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                                         let new_node = stack.push(Some(state_id), Some(new_symbol));
                                         new_stacks.push(new_node);
                                     }
-                                    Some(Goto::Accept) => unreachable!(),
                                     None => (),
                                 }
                             }
@@ -613,13 +610,20 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                                                 self.apply_reduce(
                                                     reduced_rule,
                                                     &stack,
-                                                    &mut reduced,
                                                     &mut new_to_reduce,
                                                 );
                                             }
                                             Action::Shift => {
                                                 reduced.push(stack.clone_and_fork_record());
                                             }
+                                            Action::Accept => {
+                                                // remove the entry symbol and the entry state
+                                                for stack in stack.unwind_stacks(2) {
+                                                    let (_edge, stack) = stack.pop();
+                                                    let (_edge, root) = stack.pop();
+                                                    reduced.push(root);
+                                                }
+                                            }
                                         };
                                     }
                                 }
@@ -641,7 +645,6 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     &mut self,
                     reduced_rule: &ReducedRule,
                     stack: &GraphNode<usize, StackSymbol, RecordedVisit<T>>,
-                    accepted: &mut Vec<GraphNode<StateId, StackSymbol, RecordedVisit<T>>>,
                     new_to_reduce: &mut Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>,
                 ) {
                     let (to_pop, reduced_symbol) = self.get_rule_reduction(&reduced_rule);
@@ -657,15 +660,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         }
                         let state = *stack.top().unwrap();
                         match self.next_goto(&state, &reduced_symbol) {
-                            Some(Goto::State { state_id }) => {
+                            Some(state_id) => {
                                 // push new non-terminal
                                 let new_node = stack.push(Some(state_id), Some(reduced_symbol));
                                 new_to_reduce.push(new_node);
                             }
-                            Some(Goto::Accept) => {
-                                let (_edge, root) = stack.pop();
-                                accepted.push(root);
-                            }
                             None => (),
                         }
                     }
diff --git a/lapex-rust-codegen/src/lr_parser/mod.rs b/lapex-rust-codegen/src/lr_parser/mod.rs
index 87cc0c8..0b2c0e3 100644
--- a/lapex-rust-codegen/src/lr_parser/mod.rs
+++ b/lapex-rust-codegen/src/lr_parser/mod.rs
@@ -159,12 +159,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             match entry {
                 TableEntry::Shift { target } => {
                     gotos.push(quote! {
-                        #condition => Goto::State { state_id: #target },
-                    });
-                }
-                TableEntry::Accept => {
-                    gotos.push(quote! {
-                        #condition => Goto::Accept,
+                        #condition => #target,
                     });
                 }
                 _ => (),
@@ -244,6 +239,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         #condition => Ok(Action::Reduce { rule: ReducedRule::#rule_name }),
                     });
                 }
+                TableEntry::Accept => {
+                    actions.push(quote! {
+                        #condition => Ok(Action::Accept),
+                    });
+                }
                 _ => (),
             }
         }
@@ -256,7 +256,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         expected_symbols: &mut Vec<Option<SymbolIdx>>,
     ) {
         match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => match symbol {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => match symbol {
                 Symbol::Terminal(token_index) => {
                     expected_symbols.push(Some(token_index));
                 }
@@ -370,12 +372,8 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
             enum Action {
                 Shift,
-                Reduce { rule: ReducedRule }
-            }
-
-            enum Goto {
-                Accept,
-                State { state_id: usize }
+                Reduce { rule: ReducedRule },
+                Accept
             }
 
             #[derive(Debug)]
@@ -415,7 +413,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     }
                 }
 
-                fn next_goto(&self, state: usize, symbol: StackSymbol) -> Goto {
+                fn next_goto(&self, state: usize, symbol: StackSymbol) -> usize {
                     match (state, symbol) {
                         #(#gotos)*
                         (_, _) => unreachable!()
@@ -443,7 +441,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let mut stack = Vec::new();
                     stack.push(StackSymbol::State { state_id: #entry });
 
-                    while !stack.is_empty() {
+                    loop {
                         let (next_token, _) = lookahead.front().unwrap();
                         let state = match stack.last().unwrap() {
                             StackSymbol::State { state_id } => *state_id,
@@ -461,24 +459,16 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             Action::Reduce { rule: reduced_rule } => {
                                 self.reduce_stack_and_visit(reduced_rule, &mut stack);
                             }
+                            Action::Accept => return Ok(()),
                         }
                         let current_symbol = stack.last().unwrap();
                         let state = match &stack[stack.len() - 2] {
                             StackSymbol::State { state_id } => *state_id,
                             _ => unreachable!()
                         };
-                        let goto = self.next_goto(state, *current_symbol);
-                        match goto {
-                            Goto::Accept => {
-                                stack.pop();
-                                stack.pop();
-                            }
-                            Goto::State { state_id } => {
-                                stack.push(StackSymbol::State { state_id })
-                            }
-                        }
+                        let state_id = self.next_goto(state, *current_symbol);
+                        stack.push(StackSymbol::State { state_id });
                     }
-                    Ok(())
                 }
             }
         };
-- 
2.43.0


From ba0703e85a6cfa675c97e935a383449e6eb7dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 05/19] fix: reduce on tokens only in LR(0) tables

Transitions on non-terminals are gotos: they neither conflict with a reduction
nor can a reduction happen on them. Every grammar with an empty production was
reported as a shift/reduce conflict, or made the code generator panic.
---
 lapex-parser/src/lr_parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lapex-parser/src/lr_parser/mod.rs b/lapex-parser/src/lr_parser/mod.rs
index bbbf82e..d2f2432 100644
--- a/lapex-parser/src/lr_parser/mod.rs
+++ b/lapex-parser/src/lr_parser/mod.rs
@@ -312,7 +312,9 @@ fn find_conflicts<'grammar, 'rules, const N: usize>(
                                 shift_symbol: *edge.weight(),
                             });
                         }
-                    } else if reducing_items[0].rule().lhs().is_some() {
+                    } else if reducing_items[0].rule().lhs().is_some()
+                        && matches!(edge.weight(), Symbol::Terminal(_))
+                    {
                         // the completed entry rule only accepts at the end of the input
                         conflicts.insert(Conflict::ShiftReduce {
                             state: state.index(),
@@ -498,7 +500,7 @@ fn build_table<'grammar, 'rules, const N: usize>(
                 }
                 match N {
                     0 => {
-                        for symbol in grammar.symbols().chain(std::iter::once(Symbol::End)) {
+                        for symbol in grammar.terminals().chain(std::iter::once(Symbol::End)) {
                             table.insert_reduce(*state, symbol, item.rule())
                         }
                     }
-- 
2.43.0


From 843e8f057a2270d534653f7fe04ae3f91b86cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 06/19] fix: support exact repetitions in token patterns

A repetition whose bounds are equal, such as /a{3}/, panicked.
---
 lapex-lexer/src/nfa/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lapex-lexer/src/nfa/mod.rs b/lapex-lexer/src/nfa/mod.rs
index 631f861..bd26cb0 100644
--- a/lapex-lexer/src/nfa/mod.rs
+++ b/lapex-lexer/src/nfa/mod.rs
@@ -110,14 +110,18 @@ fn build_nfa_from_pattern<'rules>(
                             let max_start = nfa.add_intermediate_state();
                             nfa.add_epsilon_transition(inner_end, max_start);
                             let max_end = nfa.add_intermediate_state();
-                            let mut max_intermediates = chain_pattern_times(
-                                alphabet,
-                                nfa,
-                                additional_until_max as usize,
-                                inner,
-                                max_start,
-                                max_end,
-                            );
+                            let mut max_intermediates = if additional_until_max == 0 {
+                                Vec::new()
+                            } else {
+                                chain_pattern_times(
+                                    alphabet,
+                                    nfa,
+                                    additional_until_max as usize,
+                                    inner,
+                                    max_start,
+                                    max_end,
+                                )
+                            };
                             max_intermediates.push(max_start);
                             max_intermediates.push(max_end);
                             for mi in max_intermediates {
-- 
2.43.0


From d5d7a1ec50e15cf8c010b6f97da96736e2223bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 07/19] fix: allow trailing and repeated underscores in names

Names such as A_ and A__B made the Rust code generator panic.
---
 lapex-rust-codegen/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lapex-rust-codegen/src/lib.rs b/lapex-rust-codegen/src/lib.rs
index e6c398f..0dc39c1 100644
--- a/lapex-rust-codegen/src/lib.rs
+++ b/lapex-rust-codegen/src/lib.rs
@@ -74,6 +74,7 @@ fn get_non_terminal_enum_name(grammar: &Grammar, non_terminal: Symbol) -> String
 
 fn convert_snake_to_upper_camel(name: &str) -> String {
     name.split('_')
+        .filter(|s| !s.is_empty())
         .map(|s| {
             let (head, tail) = s.split_at(1);
             format!("{}{}", head.to_ascii_uppercase(), tail.to_ascii_lowercase())
-- 
2.43.0


From 3ac738d9110af1a82edfaad6e6c4e42215a83415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 08/19] fix: report write errors that only show when the output
 is flushed

The buffered writer was dropped without a flush, so a full disk went unnoticed
and generation reported success with incomplete files.
---
 lapex-codegen/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lapex-codegen/src/lib.rs b/lapex-codegen/src/lib.rs
index cd9a4ae..f40a074 100644
--- a/lapex-codegen/src/lib.rs
+++ b/lapex-codegen/src/lib.rs
@@ -43,10 +43,12 @@ impl<'writer> GeneratedCodeWriter<'writer> {
         G: Fn(&mut dyn Write) -> Result<(), std::io::Error>,
     {
         if let Some(writer) = self.targets.get_mut(&key) {
-            code_generator(writer)
+            code_generator(writer)?;
+            writer.flush()
         } else {
             let mut sink = (self.default_writer_fun)(key)?;
-            code_generator(&mut sink)
+            code_generator(&mut sink)?;
+            sink.flush()
         }
     }
 }
-- 
2.43.0


From 609c0f44903c748e01c15000d9b81a9015c020ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 09/19] fix: exit with a failure status when generation fails

---
 lapex-cli/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lapex-cli/src/main.rs b/lapex-cli/src/main.rs
index 9f3d6f5..ffb4694 100644
--- a/lapex-cli/src/main.rs
+++ b/lapex-cli/src/main.rs
@@ -66,6 +66,7 @@ fn main() {
                             eprintln!();
                         }
                     }
+                    std::process::exit(1);
                 }
                 _ => {}
             }
-- 
2.43.0


From ea13861cbda95ec4a9aff4bd1f6cf2d02075a1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 10/19] fix: count columns in characters

Spans are resolved by counting characters, so a non-ASCII literal shifted every
later span on its line, and reporting a conflict there panicked.
---
 lapex-input-gen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index ceadc3d..67e81d4 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -534,7 +534,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
             let start_line = line;
             let start_col = col;
-            col += lexer.slice().len() as u16;
+            col += lexer.slice().chars().count() as u16;
 
             let token_data = TokenData {
                 text: lexer.slice(),
-- 
2.43.0


From f5f82d6e9af2f995067c1c68720684f0213a7ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 11/19] fix: drop empty patterns from sequences

An empty pattern after the first element of a sequence, as in A (!) B, left the
LR construction with an item that cannot advance, or made it panic.
---
 lapex-parser/src/grammar_builder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lapex-parser/src/grammar_builder.rs b/lapex-parser/src/grammar_builder.rs
index 17a0c07..d94279f 100644
--- a/lapex-parser/src/grammar_builder.rs
+++ b/lapex-parser/src/grammar_builder.rs
@@ -142,7 +142,15 @@ impl<'rules> GrammarBuilder<'rules> {
                     .into_iter()
                     .map(|pattern| self.transform_pattern(pattern, parent_rule))
                     .collect();
-                let symbols: Vec<Symbol> = symbols?.into_iter().flat_map(|v| v).collect();
+                // epsilon adds nothing to a sequence, it only stands for an empty one
+                let mut symbols: Vec<Symbol> = symbols?
+                    .into_iter()
+                    .flat_map(|v| v)
+                    .filter(|s| *s != Symbol::Epsilon)
+                    .collect();
+                if symbols.is_empty() {
+                    symbols.push(Symbol::Epsilon);
+                }
                 Ok(symbols)
             }
             ProductionPattern::Alternative { elements } => {
-- 
2.43.0


From 05706156985056bd01323a25383199652f7230d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 12/19] fix: replay one derivation of an ambiguous input in the
 GLR parser

With several accepted derivations the parse loop went on with finished stacks
and panicked.
---
 lapex-rust-codegen/src/glr_parser/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 99001d0..7ee588b 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -543,7 +543,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
                     while !(stacks.len() == 1 && stacks[0].is_root()) {
                         let (next_token, next_data) = lookahead.front().unwrap();
-                        let reduced = self
+                        let mut reduced = self
                             .apply_reduces(stacks, next_token, next_data)
                             .map_err(combine_errors)?;
 
@@ -551,8 +551,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         let new_symbol = StackSymbol::Terminal { token: next_token };
                         lookahead.push_back((self.token_function)().map_err(|e| ParserError::LexerError { inner: e })?);
 
-                        let mut new_stacks = if reduced.iter().any(|s| s.top().is_none()) {
-                            reduced
+                        let mut new_stacks = if let Some(accepted) = reduced.iter().position(|s| s.is_root()) {
+                            // several derivations may have been accepted, only one is replayed
+                            vec![reduced.swap_remove(accepted)]
                         } else {
                             let mut new_stacks = Vec::new();
                             for stack in reduced {
-- 
2.43.0


From eb63e29e945bf3cebdc1c785b82c9a5207d6ee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 13/19] fix: take no token after the end of the input in GLR
 and C++ LL parsers

The surplus token was lost to the next parse on the same source, and an error
of the source at that point made the parse of a complete sentence fail.
---
 lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl | 5 ++++-
 lapex-rust-codegen/src/glr_parser/mod.rs          | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
index 8d733c1..4691c12 100644
--- a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
@@ -82,7 +82,10 @@ namespace parser
                 }
                 this->visitor.token(lookahead_tk, lookahead_token_and_data.second);
                 lookahead.pop();
-                lookahead.push(this->token_function());
+                if (!parse_stack.empty())
+                {
+                    lookahead.push(this->token_function());
+                }
             }
         }
     }
diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 7ee588b..1c020f1 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -549,12 +549,12 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
                         let (next_token, next_data) = lookahead.pop_front().unwrap();
                         let new_symbol = StackSymbol::Terminal { token: next_token };
-                        lookahead.push_back((self.token_function)().map_err(|e| ParserError::LexerError { inner: e })?);
 
                         let mut new_stacks = if let Some(accepted) = reduced.iter().position(|s| s.is_root()) {
                             // several derivations may have been accepted, only one is replayed
                             vec![reduced.swap_remove(accepted)]
                         } else {
+                            lookahead.push_back((self.token_function)().map_err(|e| ParserError::LexerError { inner: e })?);
                             let mut new_stacks = Vec::new();
                             for stack in reduced {
                                 let state = *stack.top().unwrap();
-- 
2.43.0


From 2dbf61670bbab1f9dc69c55f202decbc33b6bb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 14/19] fix: do not name the anonymous rules of a tagged
 production after its tag

All alternatives of a group inside a tagged production got the same callback
name, so the generated Rust parser did not compile.
---
 lapex-rust-codegen/src/glr_parser/mod.rs | 12 +++++++++---
 lapex-rust-codegen/src/lr_parser/mod.rs  | 10 ++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 1c020f1..9aea9f2 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -62,6 +62,12 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         non_terminal_name
     }
 
+    // a tag belongs to the tagged production, not to the anonymous rules made from its pattern
+    fn get_tag(&self, rule: &Rule<'rules>) -> Option<&'rules str> {
+        self.grammar.get_production_name(&rule.lhs()?)?;
+        rule.rule().inner.tag
+    }
+
     fn write_visitor(&self, output: &mut dyn Write) -> std::io::Result<()> {
         let mut reduce_functions: Vec<TokenStream> = Vec::new();
 
@@ -72,7 +78,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let comment: TokenStream = format!("///{}", rule.display(self.grammar))
                         .parse()
                         .unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.get_tag(rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -114,7 +120,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             if rules.len() != 1 {
                 for (i, rule) in rules.iter().enumerate() {
                     let comment = format!("{}", rule.display(self.grammar));
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.get_tag(rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -365,7 +371,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 for (i, rule) in rules.iter().enumerate() {
                     let rule_index = self.rule_index_map.get(&(*rule as *const Rule)).unwrap();
                     let rule_name: TokenStream = format!("Rule{}", rule_index).parse().unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.get_tag(rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
diff --git a/lapex-rust-codegen/src/lr_parser/mod.rs b/lapex-rust-codegen/src/lr_parser/mod.rs
index 0b2c0e3..4e2b6d5 100644
--- a/lapex-rust-codegen/src/lr_parser/mod.rs
+++ b/lapex-rust-codegen/src/lr_parser/mod.rs
@@ -58,6 +58,12 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         non_terminal_name
     }
 
+    // a tag belongs to the tagged production, not to the anonymous rules made from its pattern
+    fn get_tag(&self, rule: &Rule<'rules>) -> Option<&'rules str> {
+        self.grammar.get_production_name(&rule.lhs()?)?;
+        rule.rule().inner.tag
+    }
+
     fn write_visitor(&self, output: &mut dyn Write) -> std::io::Result<()> {
         let mut reduce_functions: Vec<TokenStream> = Vec::new();
 
@@ -68,7 +74,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let comment: TokenStream = format!("///{}", rule.display(self.grammar))
                         .parse()
                         .unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.get_tag(rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -301,7 +307,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 for (i, rule) in rules.iter().enumerate() {
                     let rule_index = self.rule_index_map.get(&(*rule as *const Rule)).unwrap();
                     let rule_name: TokenStream = format!("Rule{}", rule_index).parse().unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.get_tag(rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
-- 
2.43.0


From efd3340ee88fc61634e5dc1c65e16fd777e2a2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 15/19] fix: let '.' exclude the line break in the bootstrap
 front end

The generated front end reads '.' without the line break. As the bundled
grammar is read by the bootstrap front end, strings and patterns could contain
an escaped line break, which the line counting does not see.
---
 lapex-input-bootstrap/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-input-bootstrap/src/lib.rs b/lapex-input-bootstrap/src/lib.rs
index b18c40d..782972b 100644
--- a/lapex-input-bootstrap/src/lib.rs
+++ b/lapex-input-bootstrap/src/lib.rs
@@ -118,7 +118,7 @@ fn parse_regex_element(input: &[u8]) -> IResult<&[u8], Pattern> {
         parse_regex_group,
         parse_char_set,
         map(tag("."), |_| Pattern::CharSet {
-            chars: Vec::new(),
+            chars: vec![Characters::Single('\n')],
             negated: true,
         }),
         map(parse_char, |ch| Pattern::Char {
-- 
2.43.0


From 6e10235f28e0e34143c0a27174bf9fd89439172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:40 +0000
Subject: [PATCH 16/19] fix: order items independently of where the entry rule
 is stored

---
 lapex-parser/src/lr_parser/item.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lapex-parser/src/lr_parser/item.rs b/lapex-parser/src/lr_parser/item.rs
index 43e8d6b..3dec198 100644
--- a/lapex-parser/src/lr_parser/item.rs
+++ b/lapex-parser/src/lr_parser/item.rs
@@ -41,13 +41,16 @@ impl<'grammar, 'rules> Eq for RuleRef<'grammar, 'rules> {}
 
 impl<'grammar, 'rules> PartialOrd for RuleRef<'grammar, 'rules> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        (self.0 as *const Rule).partial_cmp(&(other.0 as *const Rule))
+        Some(self.cmp(other))
     }
 }
 
 impl<'grammar, 'rules> Ord for RuleRef<'grammar, 'rules> {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        (self.0 as *const Rule).cmp(&(other.0 as *const Rule))
+        // the rules of a grammar lie in one vector, so their addresses follow their order; only the
+        // entry rule lies elsewhere, and where that is must not matter
+        let key = |r: &Self| (r.0.lhs().is_none(), r.0 as *const Rule);
+        key(self).cmp(&key(other))
     }
 }
 
-- 
2.43.0


From cb525db9ff0c403d7c2d5fdd9adc16cfd56646e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 17/19] fix: drop deep stacks of the emitted GLR parser without
 recursion

A stack of the emitted GLR parser is a chain of reference counted nodes.
Dropping it recursed once per node, so that a syntax error after some
tens of thousands of shifted tokens overflowed the stack of the thread
and aborted the process instead of returning the error.
---
 lapex-rust-codegen/src/glr_parser/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 9aea9f2..07eea09 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -813,6 +813,17 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     node_value: Option<N>,
                     neighbors: Vec<(Option<E>, GraphNode<N, E, R>)>,
                 }
+
+                impl<N, E, R> Drop for GraphNodeInner<N, E, R> {
+                    fn drop(&mut self) {
+                        let mut neighbors = std::mem::take(&mut self.neighbors);
+                        while let Some((_edge, node)) = neighbors.pop() {
+                            if let Ok(inner) = Rc::try_unwrap(node.inner) {
+                                neighbors.append(&mut inner.into_inner().neighbors);
+                            }
+                        }
+                    }
+                }
             }
         };
         write!(output, "{}", tokens)
-- 
2.43.0


From b5274b8ba4347597a7d210659e6b138bfb480619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 18/19] fix: refuse rule sets with more symbols than symbol
 numbers

Symbols are numbered with 16 bits. The numbers of tokens, productions and
anonymous non-terminals were truncated or wrapped around, so that
different names silently shared a symbol. Report TooManyRules instead.
---
 lapex-parser/src/grammar_builder.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lapex-parser/src/grammar_builder.rs b/lapex-parser/src/grammar_builder.rs
index d94279f..a0c0811 100644
--- a/lapex-parser/src/grammar_builder.rs
+++ b/lapex-parser/src/grammar_builder.rs
@@ -21,14 +21,20 @@ impl<'rules> GrammarBuilder<'rules> {
             .token_rules
             .iter()
             .enumerate()
-            .map(|(i, rule)| (rule.inner.name, Symbol::Terminal(i as SymbolIdx), rule))
-            .collect();
+            .map(|(i, rule)| {
+                let symbol = Symbol::Terminal(SymbolIdx::try_from(i)?);
+                Ok((rule.inner.name, symbol, rule))
+            })
+            .collect::<Result<_, GrammarError>>()?;
         let production_triples: Vec<(&str, Symbol, &Spanned<ProductionRule>)> = rule_set
             .production_rules
             .iter()
             .enumerate()
-            .map(|(i, rule)| (rule.inner.name, Symbol::NonTerminal(i as SymbolIdx), rule))
-            .collect();
+            .map(|(i, rule)| {
+                let symbol = Symbol::NonTerminal(SymbolIdx::try_from(i)?);
+                Ok((rule.inner.name, symbol, rule))
+            })
+            .collect::<Result<_, GrammarError>>()?;
         let mut symbols_with_span = BTreeMap::new();
         let mut tokens = BTreeMap::new();
         let mut productions = BTreeMap::new();
@@ -80,7 +86,8 @@ impl<'rules> GrammarBuilder<'rules> {
     }
 
     fn get_temp_symbol(&mut self) -> Result<Symbol, GrammarError> {
-        let non_terminal = Symbol::NonTerminal(self.temp_count + self.max_symbol + 1);
+        let index = usize::from(self.max_symbol) + usize::from(self.temp_count) + 1;
+        let non_terminal = Symbol::NonTerminal(SymbolIdx::try_from(index)?);
         self.anonymous_non_terminals.push(non_terminal.clone());
         self.temp_count = self.temp_count.checked_add(1).unwrap();
         Ok(non_terminal)
-- 
2.43.0


From f663ac29b597ef6cdce824d89e67198c73edf3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 19/19] fix: let lapex debug fail when generation or parsing
 fails

The command ended with status 0 after reporting that the parser could not
be generated or that the source was not accepted.
---
 lapex-cli/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lapex-cli/src/main.rs b/lapex-cli/src/main.rs
index ffb4694..df98ae4 100644
--- a/lapex-cli/src/main.rs
+++ b/lapex-cli/src/main.rs
@@ -94,6 +94,8 @@ fn main() {
                             eprintln!();
                         }
                     }
+                    target_dir.close().unwrap();
+                    std::process::exit(1);
                 }
                 _ => {
                     assert!(
@@ -156,6 +158,9 @@ fn main() {
                         eprintln!("Failed to parse {}", source_path.display());
                     }
                     target_dir.close().unwrap();
+                    if !exit_code.success() {
+                        std::process::exit(1);
+                    }
                 }
             }
         }
-- 
2.43.0

