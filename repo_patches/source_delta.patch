From d1933fbf0585927016e2ec3c28ee10f42d943903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 01/22] fix: exact repetitions like a{3} no longer panic when
 the lexer automaton is built

---
 lapex-lexer/src/nfa/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lapex-lexer/src/nfa/mod.rs b/lapex-lexer/src/nfa/mod.rs
index 631f861..5cd8519 100644
--- a/lapex-lexer/src/nfa/mod.rs
+++ b/lapex-lexer/src/nfa/mod.rs
@@ -42,6 +42,10 @@ fn chain_pattern_times<'rules, 'p>(
     start: StateId,
     end: StateId,
 ) -> Vec<StateId> {
+    if times == 0 {
+        nfa.add_epsilon_transition(start, end);
+        return Vec::new();
+    }
     chain_pattern_iterator(
         alphabet,
         nfa,
-- 
2.43.0


From e04588dd9db070650ab6293e843d6a878dc31b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:18 +0000
Subject: [PATCH 02/22] fix: C++ LL entry symbol is substituted into the parser
 template

---
 lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
index ee3e370..8d733c1 100644
--- a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
@@ -54,7 +54,7 @@ namespace parser
         std::stack<Symbol> parse_stack;
         Symbol end{SymbolKind::Terminal, static_cast<uint32_t>(lexer::TokenType::TK_EOF)};
         parse_stack.push(end);
-        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>({grammar_entry_non_terminal})};
+        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>(/*{grammar_entry_non_terminal}*/)};
         parse_stack.push(entry);
 
         while (parse_stack.size() > 0)
-- 
2.43.0


From b784f76a821cd8968bcedc93bbc3e38d74b00dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:18 +0000
Subject: [PATCH 03/22] fix: C++ LL table cases use the enum value of the
 non-terminal

---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index 665a047..6118482 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -153,12 +153,10 @@ impl<'parser> CodeWriter<'parser> {
     fn write_table_switch(&self, output: &mut dyn Write) -> Result<(), Error> {
         writeln!(output, "switch(non_terminal.identifier) {{")?;
         for non_terminal in self.grammar.non_terminals() {
-            let non_terminal_index = if let Symbol::NonTerminal(i) = non_terminal {
-                i
-            } else {
-                unreachable!()
-            };
-            writeln!(output, "case {}: {{", non_terminal_index)?;
+            // stack symbols carry the enum value of the non-terminal, not its symbol index
+            write!(output, "case static_cast<uint32_t>(NonTerminalType::")?;
+            self.write_non_terminal_enum_name(non_terminal, output)?;
+            writeln!(output, "): {{")?;
             writeln!(output, "switch (lookahead) {{")?;
             for (terminal, token_name) in self.grammar.terminals_with_names() {
                 let entry = self.parser_table.get_production(non_terminal, &terminal);
-- 
2.43.0


From ecb17c3a2043f7cb6ed4f86a415faf868613fc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:19 +0000
Subject: [PATCH 04/22] fix: C++ LL table includes the end-of-file column

---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index 6118482..04683ad 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -150,6 +150,12 @@ impl<'parser> CodeWriter<'parser> {
         writeln!(output, "throw std::runtime_error(\"{}\");", message)
     }
 
+    fn lookaheads_with_names(&self) -> impl Iterator<Item = (Symbol, &str)> {
+        self.grammar
+            .terminals_with_names()
+            .chain(std::iter::once((Symbol::End, "EOF")))
+    }
+
     fn write_table_switch(&self, output: &mut dyn Write) -> Result<(), Error> {
         writeln!(output, "switch(non_terminal.identifier) {{")?;
         for non_terminal in self.grammar.non_terminals() {
@@ -158,7 +164,7 @@ impl<'parser> CodeWriter<'parser> {
             self.write_non_terminal_enum_name(non_terminal, output)?;
             writeln!(output, "): {{")?;
             writeln!(output, "switch (lookahead) {{")?;
-            for (terminal, token_name) in self.grammar.terminals_with_names() {
+            for (terminal, token_name) in self.lookaheads_with_names() {
                 let entry = self.parser_table.get_production(non_terminal, &terminal);
                 if let Some(symbols) = entry {
                     writeln!(output, "case lexer::TokenType::TK_{}: {{", token_name)?;
@@ -170,8 +176,7 @@ impl<'parser> CodeWriter<'parser> {
             writeln!(output, "default:")?;
             self.write_parser_table_error(
                 self.grammar.get_production_name(&non_terminal),
-                self.grammar
-                    .terminals_with_names()
+                self.lookaheads_with_names()
                     .filter(|(symbol, _)| {
                         self.parser_table
                             .get_production(non_terminal, symbol)
-- 
2.43.0


From 633ea384f629f695f2d31f9730c30fa30da23b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:05 +0000
Subject: [PATCH 05/22] fix: C++ LR goto table keeps states whose only
 transition is accept

---
 lapex-parser/src/lr_parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-parser/src/lr_parser/mod.rs b/lapex-parser/src/lr_parser/mod.rs
index 2162ba7..b36d1ad 100644
--- a/lapex-parser/src/lr_parser/mod.rs
+++ b/lapex-parser/src/lr_parser/mod.rs
@@ -436,7 +436,7 @@ impl<'grammar: 'rules, 'rules> ActionGotoTable<'grammar, 'rules> {
             .filter_map(|(_s, e)| e)
             .flat_map(|e| e)
             .any(|e| {
-                if let TableEntry::Shift { target: _ } = e {
+                if let TableEntry::Shift { target: _ } | TableEntry::Accept = e {
                     true
                 } else {
                     false
-- 
2.43.0


From b30938870359f7579ba17ec9294b984e1d8a5ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 06/22] fix: anonymous non-terminals do not inherit the tag of
 their rule in Rust visitors

---
 lapex-rust-codegen/src/glr_parser/mod.rs | 15 ++++++++++++---
 lapex-rust-codegen/src/lr_parser/mod.rs  | 10 ++++++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 07e85e9..1d72b3f 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -72,7 +72,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let comment: TokenStream = format!("///{}", rule.display(self.grammar))
                         .parse()
                         .unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self
+                        .grammar
+                        .get_production_name(non_terminal)
+                        .and(rule.rule().inner.tag);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -114,7 +117,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             if rules.len() != 1 {
                 for (i, rule) in rules.iter().enumerate() {
                     let comment = format!("{}", rule.display(self.grammar));
-                    let tag = rule.rule().inner.tag;
+                    let tag = self
+                        .grammar
+                        .get_production_name(non_terminal)
+                        .and(rule.rule().inner.tag);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -363,7 +369,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 for (i, rule) in rules.iter().enumerate() {
                     let rule_index = self.rule_index_map.get(&(*rule as *const Rule)).unwrap();
                     let rule_name: TokenStream = format!("Rule{}", rule_index).parse().unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self
+                        .grammar
+                        .get_production_name(non_terminal)
+                        .and(rule.rule().inner.tag);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
diff --git a/lapex-rust-codegen/src/lr_parser/mod.rs b/lapex-rust-codegen/src/lr_parser/mod.rs
index 87cc0c8..8ef2f52 100644
--- a/lapex-rust-codegen/src/lr_parser/mod.rs
+++ b/lapex-rust-codegen/src/lr_parser/mod.rs
@@ -68,7 +68,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let comment: TokenStream = format!("///{}", rule.display(self.grammar))
                         .parse()
                         .unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self
+                        .grammar
+                        .get_production_name(non_terminal)
+                        .and(rule.rule().inner.tag);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -299,7 +302,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 for (i, rule) in rules.iter().enumerate() {
                     let rule_index = self.rule_index_map.get(&(*rule as *const Rule)).unwrap();
                     let rule_name: TokenStream = format!("Rule{}", rule_index).parse().unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self
+                        .grammar
+                        .get_production_name(non_terminal)
+                        .and(rule.rule().inner.tag);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
-- 
2.43.0


From 783a9edca01d11416bc5f9c317e7cab8c21a277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 07/22] fix: left-recursive entry rules are parsed to the end
 instead of accepted after their first reduction

---
 lapex-parser/src/grammar_builder.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lapex-parser/src/grammar_builder.rs b/lapex-parser/src/grammar_builder.rs
index 17a0c07..1498d14 100644
--- a/lapex-parser/src/grammar_builder.rs
+++ b/lapex-parser/src/grammar_builder.rs
@@ -100,13 +100,24 @@ impl<'rules> GrammarBuilder<'rules> {
             self.add_production_rule(&rule)?;
         }
         let entry_name = self.rule_set.entry_rule.inner.name;
-        let entry_symbol = self.get_symbol_by_name(entry_name)?;
+        let mut entry_symbol = self.get_symbol_by_name(entry_name)?;
         let entry_production = self
             .rule_set
             .production_rules
             .iter()
             .find(|r| r.inner.name == entry_name)
             .ok_or(GrammarError::MissingSymbol(String::from(entry_name)))?;
+        // a left-recursive entry symbol is also reached while parsing itself, so reaching it must not mean acceptance
+        if self
+            .rules
+            .iter()
+            .any(|r| r.rhs().first() == Some(&entry_symbol))
+        {
+            let start_symbol = self.get_temp_symbol()?;
+            self.rules
+                .push(Rule::new(start_symbol, vec![entry_symbol], entry_production)?);
+            entry_symbol = start_symbol;
+        }
         // the entry rule is a pseudo-rule that has no LHS and maps to the entry symbol.
         let entry_rule = Rule::entry(entry_symbol, &entry_production);
         Ok(Grammar::new(
-- 
2.43.0


From 8dad727e9abb481984010fe7dbd7de74502ffed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:49 +0000
Subject: [PATCH 08/22] fix: rule files with more symbols than can be numbered
 are rejected instead of wrapping around

---
 lapex-parser/src/grammar_builder.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lapex-parser/src/grammar_builder.rs b/lapex-parser/src/grammar_builder.rs
index 1498d14..0482edf 100644
--- a/lapex-parser/src/grammar_builder.rs
+++ b/lapex-parser/src/grammar_builder.rs
@@ -21,14 +21,14 @@ impl<'rules> GrammarBuilder<'rules> {
             .token_rules
             .iter()
             .enumerate()
-            .map(|(i, rule)| (rule.inner.name, Symbol::Terminal(i as SymbolIdx), rule))
-            .collect();
+            .map(|(i, rule)| Ok((rule.inner.name, Symbol::Terminal(i.try_into()?), rule)))
+            .collect::<Result<_, GrammarError>>()?;
         let production_triples: Vec<(&str, Symbol, &Spanned<ProductionRule>)> = rule_set
             .production_rules
             .iter()
             .enumerate()
-            .map(|(i, rule)| (rule.inner.name, Symbol::NonTerminal(i as SymbolIdx), rule))
-            .collect();
+            .map(|(i, rule)| Ok((rule.inner.name, Symbol::NonTerminal(i.try_into()?), rule)))
+            .collect::<Result<_, GrammarError>>()?;
         let mut symbols_with_span = BTreeMap::new();
         let mut tokens = BTreeMap::new();
         let mut productions = BTreeMap::new();
@@ -80,7 +80,11 @@ impl<'rules> GrammarBuilder<'rules> {
     }
 
     fn get_temp_symbol(&mut self) -> Result<Symbol, GrammarError> {
-        let non_terminal = Symbol::NonTerminal(self.temp_count + self.max_symbol + 1);
+        let index = self.temp_count.checked_add(self.max_symbol);
+        let index = index
+            .and_then(|i| i.checked_add(1))
+            .ok_or(GrammarError::TooManyRules)?;
+        let non_terminal = Symbol::NonTerminal(index);
         self.anonymous_non_terminals.push(non_terminal.clone());
         self.temp_count = self.temp_count.checked_add(1).unwrap();
         Ok(non_terminal)
-- 
2.43.0


From 78bcb9c37658c71b03e886432321c8d8707d8d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:59 +0000
Subject: [PATCH 09/22] fix: LL tables and LR items can number every symbol of
 the longest rule and the last terminal

---
 lapex-parser/src/ll_parser/mod.rs  | 6 +++---
 lapex-parser/src/lr_parser/item.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lapex-parser/src/ll_parser/mod.rs b/lapex-parser/src/ll_parser/mod.rs
index 6b768c6..ce1f8ca 100644
--- a/lapex-parser/src/ll_parser/mod.rs
+++ b/lapex-parser/src/ll_parser/mod.rs
@@ -117,7 +117,7 @@ impl LLParserTable {
                 Symbol::Terminal(terminal_index) => {
                     return self
                         .table
-                        .get(&(non_terminal_index, Some(terminal_index + 1)));
+                        .get(&(non_terminal_index, Some(*terminal_index)));
                 }
                 Symbol::End => {
                     return self.table.get(&(non_terminal_index, None));
@@ -139,7 +139,7 @@ impl LLParserTable {
             return Err(LLParserError::ParserTableConflict {
                 non_terminal: Symbol::NonTerminal(non_terminal_index),
                 terminal: match terminal_index {
-                    Some(terminal_index) => Symbol::Terminal(terminal_index - 1),
+                    Some(terminal_index) => Symbol::Terminal(terminal_index),
                     None => Symbol::End,
                 },
                 production: production.clone(),
@@ -162,7 +162,7 @@ impl LLParserTable {
                 Symbol::Terminal(terminal_index) => {
                     self.check_for_conflict_and_insert(
                         non_terminal_index,
-                        Some(terminal_index + 1),
+                        Some(terminal_index),
                         production,
                     )?;
                     return Ok(());
diff --git a/lapex-parser/src/lr_parser/item.rs b/lapex-parser/src/lr_parser/item.rs
index 43e8d6b..49503bc 100644
--- a/lapex-parser/src/lr_parser/item.rs
+++ b/lapex-parser/src/lr_parser/item.rs
@@ -8,7 +8,7 @@ use lapex_input::{ProductionRule, Spanned};
 
 use crate::grammar::{Grammar, Rule, Symbol};
 
-type DotIdx = u8;
+type DotIdx = usize;
 
 struct RuleRef<'grammar, 'rules>(pub &'grammar Rule<'rules>);
 
-- 
2.43.0


From 1f7804366eb288f7316eb2a3bea268f1e64d4a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:33 +0000
Subject: [PATCH 10/22] fix: an empty element inside a sequence contributes no
 symbol to its production

---
 lapex-parser/src/grammar_builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lapex-parser/src/grammar_builder.rs b/lapex-parser/src/grammar_builder.rs
index 0482edf..e4816da 100644
--- a/lapex-parser/src/grammar_builder.rs
+++ b/lapex-parser/src/grammar_builder.rs
@@ -157,7 +157,12 @@ impl<'rules> GrammarBuilder<'rules> {
                     .into_iter()
                     .map(|pattern| self.transform_pattern(pattern, parent_rule))
                     .collect();
-                let symbols: Vec<Symbol> = symbols?.into_iter().flat_map(|v| v).collect();
+                let mut symbols: Vec<Symbol> = symbols?.into_iter().flat_map(|v| v).collect();
+                // an empty element contributes nothing, it only stands for itself when there is nothing else
+                symbols.retain(|s| *s != Symbol::Epsilon);
+                if symbols.is_empty() {
+                    symbols.push(Symbol::Epsilon);
+                }
                 Ok(symbols)
             }
             ProductionPattern::Alternative { elements } => {
-- 
2.43.0


From 30943ccdaf2cb29b191bc00d6b3604f8b408544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:33 +0000
Subject: [PATCH 11/22] fix: source columns are counted in characters, as they
 are read back, not in bytes

---
 lapex-input-gen/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index ceadc3d..9a9b0d6 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -526,7 +526,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
                         line += 1;
                     }
                     TokenType::TkWhitespace => {
-                        col += lexer.slice().len() as u16;
+                        col += lexer.slice().chars().count() as u16;
                         next_tk = lexer.next().unwrap();
                     }
                     _ => break,
@@ -534,7 +534,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
             let start_line = line;
             let start_col = col;
-            col += lexer.slice().len() as u16;
+            col += lexer.slice().chars().count() as u16;
 
             let token_data = TokenData {
                 text: lexer.slice(),
-- 
2.43.0


From b19ef2b077f740d3a5fbd757aded773609280f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:33 +0000
Subject: [PATCH 12/22] fix: source positions beyond line or column 65535
 neither wrap nor panic

---
 lapex-input-gen/src/lib.rs | 8 ++++----
 lapex-input/src/lib.rs     | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index 9a9b0d6..511f333 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -514,8 +514,8 @@ impl LapexInputParser for GeneratedLapexInputParser {
         let mut lexer = lexer::Lexer::new(source);
         let mut stack = Vec::new();
         let visitor = LapexAstVisitor { stack: &mut stack };
-        let mut col: u16 = 1;
-        let mut line: u16 = 1;
+        let mut col: u32 = 1;
+        let mut line: u32 = 1;
         let token_fun = || {
             let mut next_tk = lexer.next().unwrap();
             loop {
@@ -526,7 +526,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
                         line += 1;
                     }
                     TokenType::TkWhitespace => {
-                        col += lexer.slice().chars().count() as u16;
+                        col += lexer.slice().chars().count() as u32;
                         next_tk = lexer.next().unwrap();
                     }
                     _ => break,
@@ -534,7 +534,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
             let start_line = line;
             let start_col = col;
-            col += lexer.slice().chars().count() as u16;
+            col += lexer.slice().chars().count() as u32;
 
             let token_data = TokenData {
                 text: lexer.slice(),
diff --git a/lapex-input/src/lib.rs b/lapex-input/src/lib.rs
index 0703817..84bd361 100644
--- a/lapex-input/src/lib.rs
+++ b/lapex-input/src/lib.rs
@@ -2,8 +2,8 @@ use std::fmt::{Display, Formatter};
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
 pub struct SourcePos {
-    pub line: u16,
-    pub col: u16,
+    pub line: u32,
+    pub col: u32,
 }
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
-- 
2.43.0


From d4883573eef20d4925966c37f06484de1085d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:33 +0000
Subject: [PATCH 13/22] fix: a failure to flush a generated file is reported
 instead of dropped

---
 lapex-codegen/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lapex-codegen/src/lib.rs b/lapex-codegen/src/lib.rs
index cd9a4ae..01673d9 100644
--- a/lapex-codegen/src/lib.rs
+++ b/lapex-codegen/src/lib.rs
@@ -46,7 +46,8 @@ impl<'writer> GeneratedCodeWriter<'writer> {
             code_generator(writer)
         } else {
             let mut sink = (self.default_writer_fun)(key)?;
-            code_generator(&mut sink)
+            code_generator(&mut sink)?;
+            sink.flush()
         }
     }
 }
-- 
2.43.0


From 88bc6a814c92b3d1d78fa5709b26bbc79d406fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:33 +0000
Subject: [PATCH 14/22] fix: the command line tool exits with a failure status
 when generation failed

---
 lapex-cli/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lapex-cli/src/main.rs b/lapex-cli/src/main.rs
index 9f3d6f5..e985615 100644
--- a/lapex-cli/src/main.rs
+++ b/lapex-cli/src/main.rs
@@ -1,4 +1,4 @@
-use std::path::Path;
+use std::{path::Path, process::ExitCode};
 
 use clap::{arg, command, Args, Parser, Subcommand};
 use lapex::{generate, Language, ParsingAlgorithm};
@@ -45,7 +45,7 @@ struct DebugArgs {
     algorithm: ParsingAlgorithm,
 }
 
-fn main() {
+fn main() -> ExitCode {
     let cli = CommandLine::parse();
     match cli.command {
         Commands::Generate(cmd) => {
@@ -66,6 +66,7 @@ fn main() {
                             eprintln!();
                         }
                     }
+                    return ExitCode::FAILURE;
                 }
                 _ => {}
             }
@@ -93,6 +94,7 @@ fn main() {
                             eprintln!();
                         }
                     }
+                    return ExitCode::FAILURE;
                 }
                 _ => {
                     assert!(
@@ -159,4 +161,5 @@ fn main() {
             }
         }
     }
+    ExitCode::SUCCESS
 }
-- 
2.43.0


From 827f4a4f2c66b68474250ada27d4d36e778afc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:06 +0000
Subject: [PATCH 15/22] fix: Rust LR parsers reject input that continues after
 the entry rule

---
 lapex-rust-codegen/src/lr_parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lapex-rust-codegen/src/lr_parser/mod.rs b/lapex-rust-codegen/src/lr_parser/mod.rs
index 8ef2f52..0b6e4e8 100644
--- a/lapex-rust-codegen/src/lr_parser/mod.rs
+++ b/lapex-rust-codegen/src/lr_parser/mod.rs
@@ -476,6 +476,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         let goto = self.next_goto(state, *current_symbol);
                         match goto {
                             Goto::Accept => {
+                                let (next_token, _) = lookahead.front().unwrap();
+                                if !matches!(next_token, TokenType::EndOfFile) {
+                                    return Err(ParserError::UnexpectedToken { got: *next_token, expected: vec![TokenType::EndOfFile] });
+                                }
                                 stack.pop();
                                 stack.pop();
                             }
-- 
2.43.0


From 0c7652d7744ba74848c942cafae8d34df005845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:13 +0000
Subject: [PATCH 16/22] fix: C++ LR parsers reject input that continues after
 the entry rule

---
 lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
index 053d07b..d0e1360 100644
--- a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
@@ -44,6 +44,8 @@ namespace parser
         bool is_accepting;
     };
 
+    void throw_unexpected_token_error(const char *expected, lexer::TokenType got);
+
     Action determine_action(uint32_t state, const lexer::TokenType &lookahead_tpken);
 
     void reduce_stack(uint32_t rule, std::vector<Symbol> &parse_stack, std::vector<Symbol> &rev_reduced_symbols);
@@ -96,6 +98,10 @@ namespace parser
             Transition transition = retrieve_next_state(stack_state, current_symbol);
             if (transition.is_accepting)
             {
+                if (lookahead.front().first != lexer::TokenType::TK_EOF)
+                {
+                    throw_unexpected_token_error("'<EOF>'", lookahead.front().first);
+                }
                 parse_stack.pop_back();
                 parse_stack.pop_back();
             }
-- 
2.43.0


From f1c642c42cc25dc9165015f9265e893e4ce1afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:17 +0000
Subject: [PATCH 17/22] fix: Rust GLR parsers reject input that continues after
 the entry rule

---
 lapex-rust-codegen/src/glr_parser/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 1d72b3f..7c729e1 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -610,7 +610,6 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let mut reduced = Vec::new();
                     while !to_reduce.is_empty() {
                         let mut errors = Vec::new();
-                        let all_error_count = to_reduce.len();
                         let mut new_to_reduce = Vec::new();
                         for stack in to_reduce {
                             let state = *stack.top().unwrap();
@@ -622,8 +621,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                                                 self.apply_reduce(
                                                     reduced_rule,
                                                     &stack,
+                                                    next_token,
+                                                    next_data,
                                                     &mut reduced,
                                                     &mut new_to_reduce,
+                                                    &mut errors,
                                                 );
                                             }
                                             Action::Shift => {
@@ -638,7 +640,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             }
                         }
                         // if all reduces errored, the parser must have encountered an error
-                        if reduced.is_empty() && errors.len() == all_error_count {
+                        if reduced.is_empty() && new_to_reduce.is_empty() {
                             return Err(errors);
                         }
                         to_reduce = new_to_reduce;
@@ -650,8 +652,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     &mut self,
                     reduced_rule: &ReducedRule,
                     stack: &GraphNode<usize, StackSymbol, RecordedVisit<T>>,
+                    next_token: &TokenType,
+                    next_data: &T,
                     accepted: &mut Vec<GraphNode<StateId, StackSymbol, RecordedVisit<T>>>,
                     new_to_reduce: &mut Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>,
+                    errors: &mut Vec<ParserError<T, E>>,
                 ) {
                     let (to_pop, reduced_symbol) = self.get_rule_reduction(&reduced_rule);
                     let stacks_to_push = stack.unwind_stacks(to_pop);
@@ -672,8 +677,16 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                                 new_to_reduce.push(new_node);
                             }
                             Some(Goto::Accept) => {
-                                let (_edge, root) = stack.pop();
-                                accepted.push(root);
+                                if matches!(next_token, TokenType::EndOfFile) {
+                                    let (_edge, root) = stack.pop();
+                                    accepted.push(root);
+                                } else {
+                                    errors.push(ParserError::UnexpectedToken {
+                                        got: *next_token,
+                                        got_data: next_data.clone(),
+                                        expected: vec![TokenType::EndOfFile],
+                                    });
+                                }
                             }
                             None => (),
                         }
-- 
2.43.0


From a19adcc7d538fe6be8fb2bd7df13d78b289ef9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 18/22] fix: Rust GLR parsers accept ambiguous input instead of
 panicking

---
 lapex-rust-codegen/src/glr_parser/mod.rs | 39 +++++++++++++-----------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 7c729e1..5e781e5 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -554,7 +554,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
                     while !(stacks.len() == 1 && stacks[0].is_root()) {
                         let (next_token, next_data) = lookahead.front().unwrap();
-                        let reduced = self
+                        let mut reduced = self
                             .apply_reduces(stacks, next_token, next_data)
                             .map_err(combine_errors)?;
 
@@ -562,8 +562,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         let new_symbol = StackSymbol::Terminal { token: next_token };
                         lookahead.push_back((self.token_function)().map_err(|e| ParserError::LexerError { inner: e })?);
 
-                        let mut new_stacks = if reduced.iter().any(|s| s.top().is_none()) {
-                            reduced
+                        let accepted = reduced.iter().position(|s| s.top().is_none());
+                        let mut new_stacks = if let Some(accepted) = accepted {
+                            // an ambiguous input is accepted more than once, visit the first derivation
+                            vec![reduced.swap_remove(accepted)]
                         } else {
                             let mut new_stacks = Vec::new();
                             for stack in reduced {
@@ -752,6 +754,22 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         }
                         resulting_parents
                     }
+
+                    // nodes are shared between stacks, so popping leaves the node itself unchanged
+                    pub fn pop(self) -> (Option<E>, Self) {
+                        let inner = self.inner.borrow();
+                        assert_eq!(
+                            inner.neighbors.len(),
+                            1,
+                            "Tried to pop from stack branch with more/less than one predecessor"
+                        );
+                        let (edge, predecessor) = &inner.neighbors[0];
+                        let node = GraphNode {
+                            inner: predecessor.inner.clone(),
+                            recorded: self.recorded.clone(),
+                        };
+                        (edge.clone(), node)
+                    }
                 }
 
                 impl<N, E, R> GraphNode<N, E, R> {
@@ -781,21 +799,6 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         Ref::map(self.inner.borrow(), |i| i.neighbors.as_slice())
                     }
 
-                    pub fn pop(self) -> (Option<E>, Self) {
-                        let neighbors = &mut self.inner.borrow_mut().neighbors;
-                        assert_eq!(
-                            neighbors.len(),
-                            1,
-                            "Tried to pop from stack branch with more/less than one predecessor"
-                        );
-                        if let Some((e, mut node)) = neighbors.pop() {
-                            node.recorded = self.recorded;
-                            (e, node)
-                        } else {
-                            panic!("Tried to pop from stack branch with zero predecessors");
-                        }
-                    }
-
                     pub fn pop_recorded(&self) -> Vec<R> {
                         return self.recorded.borrow_mut().split_off(0);
                     }
-- 
2.43.0


From 76de2852a4a7feec312b2306271231bb723a9c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 19/22] fix: C++ LR parsers keep rule numbers above 65535

---
 lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
index d0e1360..f7ab73c 100644
--- a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
@@ -35,7 +35,7 @@ namespace parser
     struct Action
     {
         ActionType action_type;
-        uint16_t reduced_rule;
+        uint32_t reduced_rule;
     };
 
     struct Transition
-- 
2.43.0


From 795084ffd4812260d8373137fb97023253121c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 20/22] fix: count line breaks inside of tokens in source spans

---
 lapex-input-gen/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index 511f333..3948d08 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -534,7 +534,15 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
             let start_line = line;
             let start_col = col;
-            col += lexer.slice().chars().count() as u32;
+            for ch in lexer.slice().chars() {
+                // strings may contain escaped line breaks
+                if ch == '\n' {
+                    line += 1;
+                    col = 1;
+                } else {
+                    col += 1;
+                }
+            }
 
             let token_data = TokenData {
                 text: lexer.slice(),
-- 
2.43.0


From 77e887591ded3e294cc5799defba2fe6c3ef0d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 21/22] fix: remove escapes from string tokens

---
 lapex-input-gen/src/lib.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index 3948d08..29ccd7b 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -46,9 +46,23 @@ struct LapexAstVisitor<'stack, 'src> {
 }
 
 fn get_unescaped_chars(text: &str) -> Vec<char> {
-    // TODO: remove quotes and escaping
-    let mut chars: Vec<char> = text.chars().skip(1).collect();
-    chars.pop();
+    let mut chars = Vec::new();
+    let mut escaped = false;
+    for c in text[1..text.len() - 1].chars() {
+        if escaped {
+            escaped = false;
+            chars.push(match c {
+                'n' => '\n',
+                'r' => '\r',
+                't' => '\t',
+                other => other,
+            });
+        } else if c == '\\' {
+            escaped = true;
+        } else {
+            chars.push(c);
+        }
+    }
     chars
 }
 
-- 
2.43.0


From 0ed23b2ff48411df8779ae859de77da8fe08fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:05 +0000
Subject: [PATCH 22/22] fix: Rust code generation panics on names with a
 leading, trailing or doubled underscore

---
 lapex-rust-codegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-rust-codegen/src/lib.rs b/lapex-rust-codegen/src/lib.rs
index e6c398f..f55cc5c 100644
--- a/lapex-rust-codegen/src/lib.rs
+++ b/lapex-rust-codegen/src/lib.rs
@@ -75,7 +75,7 @@ fn get_non_terminal_enum_name(grammar: &Grammar, non_terminal: Symbol) -> String
 fn convert_snake_to_upper_camel(name: &str) -> String {
     name.split('_')
         .map(|s| {
-            let (head, tail) = s.split_at(1);
+            let (head, tail) = s.split_at(s.len().min(1));
             format!("{}{}", head.to_ascii_uppercase(), tail.to_ascii_lowercase())
         })
         .collect::<Vec<String>>()
-- 
2.43.0

