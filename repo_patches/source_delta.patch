From 829a0be10e783ca4b5c7828abfd5af9cda1ff645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:16 +0000
Subject: [PATCH 01/27] fix: validating a grammar with a ConstantFieldSet must
 not panic

---
 src/production/terminals/constant_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/production/terminals/constant_field.rs b/src/production/terminals/constant_field.rs
index e188046..b5c8aa2 100644
--- a/src/production/terminals/constant_field.rs
+++ b/src/production/terminals/constant_field.rs
@@ -306,6 +306,6 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for ConstantFieldSet<TN, TL> {
         _: HashMap<&'id str, usize>,
         _: &mut HashSet<&'id str>,
     ) -> Result<(), crate::ImplementationError> {
-        todo!()
+        Ok(())
     }
 }
-- 
2.43.0


From bb73dc634aececceb384a62a78aba1e6bcbfca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:37 +0000
Subject: [PATCH 02/27] fix: validation must visit productions and reject left
 recursion and missing symbols

---
 src/production/mod.rs                    |  1 +
 src/production/non_terminals/concat.rs   |  1 +
 src/production/non_terminals/mod.rs      | 13 ++++++++++---
 src/production/non_terminals/suffixes.rs |  1 +
 src/production/non_terminals/union.rs    |  1 +
 5 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index e135b94..48b914e 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -280,6 +280,7 @@ struct NTHelper {
     identifier: &'static str,
     nullability: OnceCell<bool>,
     null_hidden: OnceCell<bool>,
+    left_validated: OnceCell<()>,
     debugger: OnceCell<Log<&'static str>>,
 }
 
diff --git a/src/production/non_terminals/concat.rs b/src/production/non_terminals/concat.rs
index 8f4e7f6..b2639ee 100644
--- a/src/production/non_terminals/concat.rs
+++ b/src/production/non_terminals/concat.rs
@@ -216,6 +216,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
             }
+            self.nt_helper.set_left_validated();
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index bbb804b..4e20ce0 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -38,6 +38,7 @@ impl NTHelper {
             identifier,
             nullability: OnceCell::new(),
             null_hidden: OnceCell::new(),
+            left_validated: OnceCell::new(),
             debugger: OnceCell::new(),
         }
     }
@@ -68,15 +69,21 @@ impl NTHelper {
                 build_circular_format(self.identifier, &connected_set),
             ))
         } else {
-            if visited_prod.insert(self.identifier) {
-                let l = connected_set.len();
-                connected_set.insert(self.identifier, l);
+            let is_visited = !visited_prod.insert(self.identifier);
+            // A visited production which is connected through the left most symbols has to be
+            // visited again, until it is known not to reach itself through the left most symbols.
+            if is_visited && (connected_set.is_empty() || self.left_validated.get().is_some()) {
                 Ok(true)
             } else {
+                let l = connected_set.len();
+                connected_set.insert(self.identifier, l);
                 Ok(false)
             }
         }
     }
+    fn set_left_validated(&self) {
+        let _ = self.left_validated.set(());
+    }
     fn assign_debugger(&self, debugger: Log<&'static str>) -> Result<(), String> {
         self.debugger
             .set(debugger)
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 3d5935c..12c6365 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -258,6 +258,7 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
             }
+            self.nt_helper.set_left_validated();
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index abf7057..bb98f27 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -210,6 +210,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
             for prod in self.get_productions() {
                 prod.validate(connected_set.clone(), visited_prod)?;
             }
+            self.nt_helper.set_left_validated();
         }
         Ok(())
     }
-- 
2.43.0


From ec3ace04603b7c19e951bb8947770386ce1ae918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:34 +0000
Subject: [PATCH 03/27] fix: nullability of an incomplete or left recursive
 grammar is an error, not a panic

---
 src/production/non_terminals/concat.rs   |  9 +++++++++
 src/production/non_terminals/suffixes.rs | 11 ++++++++++-
 src/production/non_terminals/union.rs    |  9 +++++++++
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/production/non_terminals/concat.rs b/src/production/non_terminals/concat.rs
index b2639ee..47e7140 100644
--- a/src/production/non_terminals/concat.rs
+++ b/src/production/non_terminals/concat.rs
@@ -141,6 +141,15 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
         match self.nt_helper.nullability.get() {
             Some(s) => Ok(*s),
             None => {
+                if self.symbols.get().is_none() {
+                    return Err(ImplementationError::new(
+                        "InitializationError".into(),
+                        format!(
+                            "Symbols are not assigned for {:?}.",
+                            self.nt_helper.identifier
+                        ),
+                    ));
+                }
                 let mut is_nullable = true;
                 for prod in self.get_productions() {
                     if !prod.obtain_nullability(visited.clone())? {
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 12c6365..be8f702 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -174,7 +174,16 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         match self.nt_helper.nullability.get() {
             Some(t) => Ok(*t),
             None => {
-                let is_nullable = self.left.is_nullable() && {
+                if self.suffixes.get().is_none() {
+                    return Err(ImplementationError::new(
+                        "InitializationError".into(),
+                        format!(
+                            "Suffixes symbols are not assigned for {:?}.",
+                            self.nt_helper.identifier
+                        ),
+                    ));
+                }
+                let is_nullable = self.left.obtain_nullability(visited.clone())? && {
                     let standalone_or_nullable = self.standalone || {
                         let mut is_nullable = false;
                         for (prod, _) in self.get_suffixes() {
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index bb98f27..666f6ad 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -152,6 +152,15 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
         match self.nt_helper.nullability.get() {
             Some(s) => Ok(*s),
             None => {
+                if self.symbols.get().is_none() {
+                    return Err(ImplementationError::new(
+                        "InitializationError".into(),
+                        format!(
+                            "Symbols are not assigned for {:?}.",
+                            self.nt_helper.identifier
+                        ),
+                    ));
+                }
                 let mut is_nullable = false;
                 for prod in self.get_productions() {
                     if prod.obtain_nullability(visited.clone())? {
-- 
2.43.0


From 34b1903994c6abe52de8c6b2fef372c2cf7a8121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:34 +0000
Subject: [PATCH 04/27] fix: every suffix following a nullable left symbol is a
 left most symbol

---
 src/production/non_terminals/suffixes.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index be8f702..4a2be42 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -258,11 +258,10 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             }
 
             self.left.validate(connected_set.clone(), visited_prod)?;
-            let mut is_nullable: bool = self.left.obtain_nullability(HashMap::new())?;
+            let is_nullable: bool = self.left.obtain_nullability(HashMap::new())?;
             for (prod, _) in self.get_suffixes() {
                 if is_nullable {
                     prod.validate(connected_set.clone(), visited_prod)?;
-                    is_nullable = prod.obtain_nullability(HashMap::new())?;
                 } else {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
-- 
2.43.0


From fa11f619b9ec9b3a637037d4daf22c7e8d1b380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:35 +0000
Subject: [PATCH 05/27] fix: validate the symbol of a separated list before
 using its nullability

---
 src/production/wrappers/separated_list.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index ace2f80..14e8e75 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -139,14 +139,12 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
         visited_prod: &mut HashSet<&'id str>,
     ) -> Result<(), ImplementationError> {
         // vps.push(&self.separator);
+        self.get_production()
+            .validate(connected_sets.clone(), visited_prod)?;
         if self.get_production().obtain_nullability(HashMap::new())? {
-            self.get_production()
-                .validate(connected_sets.clone(), visited_prod)?;
             self.get_separator()
                 .validate(connected_sets, visited_prod)?;
         } else {
-            self.get_production()
-                .validate(connected_sets, visited_prod)?;
             self.get_separator()
                 .validate(HashMap::new(), visited_prod)?;
         }
-- 
2.43.0


From 8345f0f76fa25eb92e8d98eb8b8ea2249f7d54a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:36 +0000
Subject: [PATCH 06/27] fix: a separated list is nullable when its symbol is
 nullable

---
 src/production/wrappers/separated_list.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index 14e8e75..2f598e0 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -262,19 +262,18 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
     }
 
     fn is_nullable(&self) -> bool {
-        self.production.is_nullable() && self.separator.is_nullable()
+        self.production.is_nullable()
     }
 
     fn is_nullable_n_hidden(&self) -> bool {
-        self.production.is_nullable_n_hidden() && self.separator.is_nullable_n_hidden()
+        self.production.is_nullable_n_hidden()
     }
 
     fn obtain_nullability<'id>(
         &'id self,
         visited: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        Ok(self.production.obtain_nullability(visited.clone())?
-            && self.separator.obtain_nullability(visited)?)
+        self.production.obtain_nullability(visited)
     }
 
     fn impl_first_set(&self, first_set: &mut HashSet<Self::Token>) {
-- 
2.43.0


From b4fab836865cc52bd45b0bead42ff80a281c1cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:36 +0000
Subject: [PATCH 07/27] fix: a separated list of nullable symbols must not loop
 forever

---
 src/production/wrappers/separated_list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index 2f598e0..ca585ef 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -38,7 +38,7 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Separ
     }
 
     fn consume<
-        T: Copy,
+        T: Copy + PartialEq,
         TCache: Copy + Default + Eq + Hash + Ord,
         P: Fn(T, &mut Cache<TCache, TP::Node>) -> ParsedResult<T, TP::Node>,
         S: Fn(T, &mut Cache<TCache, TP::Node>) -> ParsedResult<T, TP::Node>,
@@ -60,6 +60,9 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Separ
                         Ok(next_success_data) => {
                             children.extend(separator_success_data.children);
                             children.extend(next_success_data.children);
+                            if moved_ptr == next_success_data.consumed_index {
+                                break Ok(SuccessData::new(moved_ptr, children));
+                            }
                             moved_ptr = next_success_data.consumed_index;
                         }
                         Err(err) => {
-- 
2.43.0


From ce204ced0055cce4719447f51e6ec2295e4cf5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:37 +0000
Subject: [PATCH 08/27] fix: a lookahead of a nullable symbol is nullable

---
 src/production/wrappers/look_ahead.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/production/wrappers/look_ahead.rs b/src/production/wrappers/look_ahead.rs
index b6b9563..f8c637b 100644
--- a/src/production/wrappers/look_ahead.rs
+++ b/src/production/wrappers/look_ahead.rs
@@ -55,7 +55,7 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
 
     #[inline]
     fn is_nullable(&self) -> bool {
-        false
+        self.get_production().is_nullable()
     }
 
     fn impl_grammar(
-- 
2.43.0


From c04b808c38deeabfeab04901724083ebf7f0e894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:37 +0000
Subject: [PATCH 09/27] fix: Constants must compare its values with the input

---
 src/lexeme/constants.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lexeme/constants.rs b/src/lexeme/constants.rs
index 7c03d57..022bb55 100644
--- a/src/lexeme/constants.rs
+++ b/src/lexeme/constants.rs
@@ -53,8 +53,11 @@ where
     ) -> Option<Lex<Self::Token>> {
         self.log_enter();
         let result = self.values.iter().rev().find_map(|(value, token)| {
-            let lex = Lex::new(token.clone(), pointer, pointer + value.len());
-            Some(lex)
+            if code.value[pointer..].starts_with(value.as_bytes()) {
+                Some(Lex::new(token.clone(), pointer, pointer + value.len()))
+            } else {
+                None
+            }
         });
         self.log_result(pointer, code, &result);
         result
-- 
2.43.0


From 054c18c758d3afcb8e120d5d96455095680cdc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:48 +0000
Subject: [PATCH 10/27] fix: punctuation search must fall back to the longest
 matching prefix

---
 src/field_tree.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/field_tree.rs b/src/field_tree.rs
index 9297fc7..67621bd 100644
--- a/src/field_tree.rs
+++ b/src/field_tree.rs
@@ -34,23 +34,25 @@ impl<TToken: Clone> FieldTree<TToken> {
     pub fn find(&self, code_part: &[u8]) -> Option<(TToken, usize)> {
         let mut current_field = self;
         let mut index = 0;
+        let mut longest_match = None;
 
         loop {
-            if code_part.len() > index {
-                match current_field
+            if let Some(token) = &current_field.token {
+                longest_match = Some((token, index));
+            }
+            match code_part.get(index).and_then(|byte| {
+                current_field
                     .children
-                    .binary_search_by_key(&code_part[index], |s| s.0)
-                {
-                    Ok(i) => {
-                        index += 1;
-                        current_field = &current_field.children[i].1;
-                    }
-                    Err(_) => {
-                        break current_field.token.as_ref().map(|t| (t.clone(), index));
-                    }
+                    .binary_search_by_key(byte, |s| s.0)
+                    .ok()
+            }) {
+                Some(i) => {
+                    index += 1;
+                    current_field = &current_field.children[i].1;
+                }
+                None => {
+                    break longest_match.map(|(token, length)| (token.clone(), length));
                 }
-            } else {
-                break current_field.token.as_ref().map(|t| (t.clone(), index));
             }
         }
     }
-- 
2.43.0


From da4f60df7f06b2c040d3a37474b4b75caa68e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:03 +0000
Subject: [PATCH 11/27] fix: an empty input consists of the EOF token only

---
 src/tokenization.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tokenization.rs b/src/tokenization.rs
index cada259..d580f54 100644
--- a/src/tokenization.rs
+++ b/src/tokenization.rs
@@ -45,6 +45,9 @@ impl<TToken: TokenImpl, TState: Copy + Debug + Ord + Eq> ITokenization
         let mut tokenized_stream: Vec<Lex<TToken>> = Vec::new();
         let mut pointer: usize = 0;
         let eof_pointer: usize = code.value.len();
+        if eof_pointer == 0 {
+            return Ok(vec![Lex::new(TToken::eof(), eof_pointer, eof_pointer)]);
+        }
 
         let mut state_stack = Vec::<TState>::new();
         let mut current_state = self.default_state;
@@ -158,6 +161,9 @@ impl<TToken: TokenImpl, TState: Copy + Debug + Default + Ord + Eq> ITokenization
         let mut tokenized_stream: Vec<Lex<TToken>> = Vec::new();
         let mut pointer: usize = 0;
         let eof_pointer: usize = code.value.len();
+        if eof_pointer == 0 {
+            return Ok(vec![Lex::new(TToken::eof(), eof_pointer, eof_pointer)]);
+        }
 
         let mut state_stack = Vec::new();
 
-- 
2.43.0


From 495d3268219cc395094a6a57c86d20c1bf3c6c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:03 +0000
Subject: [PATCH 12/27] fix: filtered_data_at must return the data of the
 filtered stream

---
 src/filtered_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index dc2887a..394e67a 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -86,8 +86,8 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
             .filtered_stream
             .binary_search_by_key(&code_pointer, |s| self[*s].start)
         {
-            Ok(index) => Ok(&self.original_stream[index]),
-            Err(index) => Err(&self.original_stream[index]),
+            Ok(index) => Ok(&self[FltrPtr(index)]),
+            Err(index) => Err(&self[FltrPtr(index)]),
         }
     }
     pub fn pointer(&self, filtered_index: FltrPtr) -> usize {
-- 
2.43.0


From 3543bb09360625e61f5c2afecb5f286855921713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:03 +0000
Subject: [PATCH 13/27] fix: has_stream must be true for an index within the
 stream

---
 src/filtered_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index 394e67a..e9e5de6 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -102,7 +102,7 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
     }
 
     pub fn has_stream(&self, index: FltrPtr) -> bool {
-        self.filtered_stream.len() < index.0
+        index.0 < self.filtered_stream.len()
     }
     pub fn eos_pointer(&self) -> usize {
         self.original_stream[self.original_stream.len() - 1].end
-- 
2.43.0


From 8411af41882ae9f105351e8ed84c0f7d60ec1767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:23 +0000
Subject: [PATCH 14/27] fix: a structural production within a non-structural
 one starts at the next structural token

---
 src/filtered_stream.rs                |  2 +-
 src/production/wrappers/structural.rs | 11 +++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index e9e5de6..5e53500 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -147,7 +147,7 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
     pub fn find_filter_ptr(&self, index: TokenPtr) -> Result<FltrPtr, FltrPtr> {
         match self.filtered_stream.binary_search(&index) {
             Ok(i) => Ok(FltrPtr(i)),
-            Err(i) => Ok(FltrPtr(i)),
+            Err(i) => Err(FltrPtr(i)),
         }
     }
     pub fn last_segment_index(&self, lex_index: &FltrPtr) -> Option<TokenPtr> {
diff --git a/src/production/wrappers/structural.rs b/src/production/wrappers/structural.rs
index e9658f5..0944ff0 100644
--- a/src/production/wrappers/structural.rs
+++ b/src/production/wrappers/structural.rs
@@ -112,8 +112,7 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
         self.log_entry();
 
         let next_fltr_ptr = match token_stream.find_filter_ptr(index) {
-            Ok(fp) => fp + 1,
-            Err(fp) => fp,
+            Ok(fp) | Err(fp) => fp,
         };
 
         let parsed_data =
@@ -127,13 +126,13 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
             token_stream[parsed_data.consumed_index].start,
         );
 
-        let last_token_ptr = if parsed_data.consumed_index > FltrPtr::default() {
-            token_stream.get_token_ptr(parsed_data.consumed_index - 1)
+        let next_token_ptr = if parsed_data.consumed_index > next_fltr_ptr {
+            token_stream.get_token_ptr(parsed_data.consumed_index - 1) + 1
         } else {
-            TokenPtr::default()
+            index
         };
 
-        Ok(SuccessData::new(last_token_ptr + 1, parsed_data.children))
+        Ok(SuccessData::new(next_token_ptr, parsed_data.children))
     }
 
     fn advance_ptr(
-- 
2.43.0


From 31ea5ec3eb5b41c133bda054a5674977e3cbab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:24 +0000
Subject: [PATCH 15/27] fix: non-structural parsing at the beginning of the
 stream must not skip the first token

---
 src/production/non_terminals/suffixes.rs  | 6 ++----
 src/production/non_terminals/union.rs     | 6 ++----
 src/production/wrappers/non_structural.rs | 4 ++--
 3 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 4a2be42..fe7e918 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -300,14 +300,12 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             }
             Err(_) => {
                 if !is_structural {
-                    let last_token_ptr = if moved_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(moved_ptr - 1)
+                    let current_token_ptr = if moved_ptr > FltrPtr::default() {
+                        token_stream.get_token_ptr(moved_ptr - 1) + 1
                     } else {
                         TokenPtr::default()
                     };
 
-                    let current_token_ptr = last_token_ptr + 1;
-
                     let current_token_lex = &token_stream[current_token_ptr];
 
                     if !current_token_lex.token.is_structural() {
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 666f6ad..4dce0b7 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -248,14 +248,12 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
             }
             Err(_) => {
                 if !is_structural {
-                    let last_token_ptr = if fltr_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(fltr_ptr - 1)
+                    let current_token_ptr = if fltr_ptr > FltrPtr::default() {
+                        token_stream.get_token_ptr(fltr_ptr - 1) + 1
                     } else {
                         TokenPtr::default()
                     };
 
-                    let current_token_ptr = last_token_ptr + 1;
-
                     let current_token_lex = &token_stream[current_token_ptr];
 
                     if !current_token_lex.token.is_structural() {
diff --git a/src/production/wrappers/non_structural.rs b/src/production/wrappers/non_structural.rs
index 42ef336..662b7b1 100644
--- a/src/production/wrappers/non_structural.rs
+++ b/src/production/wrappers/non_structural.rs
@@ -98,14 +98,14 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
         self.log_entry();
 
         let start_segment = if fltr_ptr > FltrPtr::default() {
-            token_stream.get_token_ptr(fltr_ptr - 1)
+            token_stream.get_token_ptr(fltr_ptr - 1) + 1
         } else {
             TokenPtr::default()
         };
 
         let parsed_data =
             self.get_symbol()
-                .advance_token_ptr(code, start_segment + 1, token_stream, cache)?;
+                .advance_token_ptr(code, start_segment, token_stream, cache)?;
 
         let result = if self.fill_range {
             let end_segment = token_stream.get_token_ptr(fltr_ptr);
-- 
2.43.0


From 62682d7be9d21ab07e8b0dd4d86d510671d1f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:51 +0000
Subject: [PATCH 16/27] fix: a union must parse its nullable symbols rather
 than assume an empty match

---
 src/production/non_terminals/union.rs | 42 +++++++++++++--------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 4dce0b7..ad593bd 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -2,8 +2,8 @@ use crate::production::NTHelper;
 #[cfg(debug_assertions)]
 use crate::production::ProductionLogger;
 use crate::{
-    production::Union, Code, ASTNode, Cache, FltrPtr, IProduction, ImplementationError,
-    NodeImpl, ParsedResult, ProductionError, SuccessData, TokenImpl, TokenPtr, TokenStream,
+    production::Union, Code, Cache, FltrPtr, IProduction, ImplementationError,
+    NodeImpl, ParsedResult, ProductionError, TokenImpl, TokenPtr, TokenStream,
 };
 
 use once_cell::unsync::OnceCell;
@@ -293,14 +293,12 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
                 }
             }
             None => {
-                if self.is_nullable_n_hidden() {
-                    return Ok(SuccessData::hidden(fltr_ptr));
-                } else if self.is_nullable() {
-                    let tree = ASTNode::null(
-                        token_stream[fltr_ptr].start,
-                        Some(token_stream.get_token_ptr(fltr_ptr)),
-                    );
-                    return Ok(SuccessData::tree(fltr_ptr, tree));
+                // Only nullable productions can be parsed with the immediate token.
+                for prod in productions.iter().filter(|prod| prod.is_nullable()) {
+                    match prod.advance_fltr_ptr(code, fltr_ptr, token_stream, cache) {
+                        Err(ProductionError::Unparsed) => {}
+                        result => return result,
+                    }
                 }
             }
         }
@@ -329,8 +327,8 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
 
         let (_, first_sets) = self.obtain_first_set();
 
+        let productions = self.get_productions();
         if let Ok(p_index) = first_sets.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            let productions = self.get_productions();
             for prod in first_sets[p_index].1.iter().map(|j| &productions[*j]) {
                 match prod.advance_token_ptr(code, index, token_stream, cache) {
                     Ok(s) => {
@@ -355,18 +353,18 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
             }
         }
 
-        if self.is_nullable_n_hidden() {
-            Ok(SuccessData::hidden(index))
-        } else if self.is_nullable() {
-            let tree = ASTNode::null(token_stream[index].start, Some(index));
-            Ok(SuccessData::tree(index, tree))
-        } else {
-            #[cfg(debug_assertions)]
-            self.nt_helper
-                .log_error(code, token_stream[index].start, &ProductionError::Unparsed);
-
-            Err(ProductionError::Unparsed)
+        // Only nullable productions can be parsed with the immediate token.
+        for prod in productions.iter().filter(|prod| prod.is_nullable()) {
+            match prod.advance_token_ptr(code, index, token_stream, cache) {
+                Err(ProductionError::Unparsed) => {}
+                result => return result,
+            }
         }
+        #[cfg(debug_assertions)]
+        self.nt_helper
+            .log_error(code, token_stream[index].start, &ProductionError::Unparsed);
+
+        Err(ProductionError::Unparsed)
     }
 
     fn advance_ptr(
-- 
2.43.0


From affdc123e073fd757f05edb15f6160f113a1ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:21 +0000
Subject: [PATCH 17/27] fix: suffixes must parse a nullable suffix rather than
 assume an empty match

---
 src/production/mod.rs                    |   2 +-
 src/production/non_terminals/suffixes.rs | 192 ++++++++++-------------
 2 files changed, 82 insertions(+), 112 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index 48b914e..bd05c3a 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -554,7 +554,7 @@ pub struct Suffixes<TP: IProduction> {
     suffixes: OnceCell<Vec<TSuffixMap<TP::Node, TP::Token>>>,
     nt_helper: NTHelper,
     suffix_first_set: OnceCell<(bool, Vec<(TP::Token, Vec<usize>)>)>,
-    null_suffix_index: OnceCell<Option<usize>>,
+    null_suffix_indices: OnceCell<Vec<usize>>,
 }
 
 /// An utility to parse a terminal or non-terminal symbols one or multiple times.
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index fe7e918..11bc574 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -28,7 +28,7 @@ impl<TP: IProduction> Suffixes<TP> {
             standalone,
             nt_helper: NTHelper::new(identifier),
             suffix_first_set: OnceCell::new(),
-            null_suffix_index: OnceCell::new(),
+            null_suffix_indices: OnceCell::new(),
         }
     }
 
@@ -54,7 +54,7 @@ impl<TP: IProduction> Suffixes<TP> {
             standalone,
             nt_helper: NTHelper::new(identifier),
             suffix_first_set: OnceCell::new(),
-            null_suffix_index: OnceCell::new(),
+            null_suffix_indices: OnceCell::new(),
         }
     }
 
@@ -94,11 +94,14 @@ impl<TP: IProduction> Suffixes<TP> {
         })
     }
 
-    fn obtain_first_null_suffix(&self) -> &Option<usize> {
-        self.null_suffix_index.get_or_init(|| {
+    fn obtain_null_suffixes(&self) -> &Vec<usize> {
+        self.null_suffix_indices.get_or_init(|| {
             self.get_suffixes()
                 .iter()
-                .position(|(prod, _)| prod.is_nullable())
+                .enumerate()
+                .filter(|(_, (prod, _))| prod.is_nullable())
+                .map(|(index, _)| index)
+                .collect()
         })
     }
 
@@ -281,7 +284,7 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         #[cfg(debug_assertions)]
         self.nt_helper.log_entry();
 
-        let mut left_success_data =
+        let left_success_data =
             self.left
                 .advance_fltr_ptr(code, fltr_ptr, token_stream, cache)?;
         // let mut parsed_children: Vec<Rc<AST<TProd::Token>>> = Vec::new();
@@ -319,70 +322,49 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             }
         }
 
-        match production_set_index {
-            Some(p_index) => {
-                for (prod, node_value) in suffix_first_set[p_index].1.iter().map(|j| &suffixes[*j])
-                {
-                    match prod.advance_fltr_ptr(
+        // Without a predicted suffix only nullable suffixes can be parsed.
+        let indices = match production_set_index {
+            Some(p_index) => &suffix_first_set[p_index].1,
+            None => self.obtain_null_suffixes(),
+        };
+        for (prod, node_value) in indices.iter().map(|j| &suffixes[*j]) {
+            match prod.advance_fltr_ptr(
+                code,
+                left_success_data.consumed_index,
+                token_stream,
+                cache,
+            ) {
+                Ok(data) => {
+                    let mut children = left_success_data.children;
+                    children.extend(data.children);
+                    let ast = ASTNode::<TP::Node>::new(
+                        node_value.clone(),
+                        token_stream.pointer(fltr_ptr),
+                        token_stream.pointer(data.consumed_index),
+                        Some((
+                            token_stream.get_token_ptr(fltr_ptr),
+                            token_stream.get_token_ptr(data.consumed_index),
+                        )),
+                        children,
+                    );
+
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
                         code,
-                        left_success_data.consumed_index,
-                        token_stream,
-                        cache,
-                    ) {
-                        Ok(data) => {
-                            let mut children = left_success_data.children;
-                            children.extend(data.children);
-                            let ast = ASTNode::<TP::Node>::new(
-                                node_value.clone(),
-                                token_stream.pointer(fltr_ptr),
-                                token_stream.pointer(data.consumed_index),
-                                Some((
-                                    token_stream.get_token_ptr(fltr_ptr),
-                                    token_stream.get_token_ptr(data.consumed_index),
-                                )),
-                                children,
-                            );
-
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_success(
-                                code,
-                                token_stream[fltr_ptr].start,
-                                token_stream[data.consumed_index].end,
-                            );
-
-                            return Ok(SuccessData::tree(data.consumed_index, ast));
-                        }
-                        Err(err) => {
-                            if err.is_invalid() {
-                                #[cfg(debug_assertions)]
-                                self.nt_helper
-                                    .log_error(code, token_stream[moved_ptr].start, &err);
+                        token_stream[fltr_ptr].start,
+                        token_stream[data.consumed_index].end,
+                    );
 
-                                return Err(err);
-                            }
-                        }
-                    }
+                    return Ok(SuccessData::tree(data.consumed_index, ast));
                 }
-            }
-            None => {
-                if let Some(i) = self.obtain_first_null_suffix() {
-                    let left_bound = token_stream.get_token_ptr(fltr_ptr);
-                    let right_bound = token_stream.get_token_ptr(left_success_data.consumed_index);
-
-                    if !suffixes[*i].0.is_nullable_n_hidden() {
-                        left_success_data.children.push(ASTNode::null(
-                            token_stream[left_success_data.consumed_index].start,
-                            Some(right_bound),
-                        ))
+                Err(err) => {
+                    if err.is_invalid() {
+                        #[cfg(debug_assertions)]
+                        self.nt_helper
+                            .log_error(code, token_stream[moved_ptr].start, &err);
+
+                        return Err(err);
                     }
-                    let tree = ASTNode::new(
-                        suffixes[*i].1.clone(),
-                        token_stream[fltr_ptr].start,
-                        token_stream[left_success_data.consumed_index].start,
-                        Some((left_bound, right_bound)),
-                        left_success_data.children,
-                    );
-                    return Ok(SuccessData::tree(left_success_data.consumed_index, tree));
                 }
             }
         }
@@ -426,55 +408,43 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
 
         let immediate_lex = &stream[moved_ptr];
 
-        if let Ok(i) = suffix_first_set.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            for (prod, node_value) in suffix_first_set[i].1.iter().map(|j| &suffixes[*j]) {
-                match prod.advance_token_ptr(code, moved_ptr, stream, cache) {
-                    Ok(success_data) => {
-                        left_success_data.consumed_index = success_data.consumed_index;
-                        left_success_data.children.extend(success_data.children);
-                        let ast = ASTNode::<TP::Node>::new(
-                            node_value.clone(),
-                            stream[index].start,
-                            stream[success_data.consumed_index].start,
-                            Some((index, success_data.consumed_index)),
-                            left_success_data.children,
-                        );
-
-                        let data = SuccessData::tree(success_data.consumed_index, ast);
+        // Without a predicted suffix only nullable suffixes can be parsed.
+        let indices = match suffix_first_set
+            .binary_search_by_key(&immediate_lex.token, |(t, _)| *t)
+        {
+            Ok(i) => &suffix_first_set[i].1,
+            Err(_) => self.obtain_null_suffixes(),
+        };
+        for (prod, node_value) in indices.iter().map(|j| &suffixes[*j]) {
+            match prod.advance_token_ptr(code, moved_ptr, stream, cache) {
+                Ok(success_data) => {
+                    left_success_data.consumed_index = success_data.consumed_index;
+                    left_success_data.children.extend(success_data.children);
+                    let ast = ASTNode::<TP::Node>::new(
+                        node_value.clone(),
+                        stream[index].start,
+                        stream[success_data.consumed_index].start,
+                        Some((index, success_data.consumed_index)),
+                        left_success_data.children,
+                    );
+
+                    let data = SuccessData::tree(success_data.consumed_index, ast);
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
+                        code,
+                        stream[index].start,
+                        stream[data.consumed_index].start,
+                    );
+                    return Ok(data);
+                }
+                Err(err) => {
+                    if err.is_invalid() {
                         #[cfg(debug_assertions)]
-                        self.nt_helper.log_success(
-                            code,
-                            stream[index].start,
-                            stream[data.consumed_index].start,
-                        );
-                        return Ok(data);
-                    }
-                    Err(err) => {
-                        if err.is_invalid() {
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_error(code, stream[index].start, &err);
-                            return Err(err);
-                        }
+                        self.nt_helper.log_error(code, stream[index].start, &err);
+                        return Err(err);
                     }
                 }
             }
-        } else {
-            if let Some(i) = self.obtain_first_null_suffix() {
-                if !suffixes[*i].0.is_nullable_n_hidden() {
-                    left_success_data.children.push(ASTNode::null(
-                        stream[left_success_data.consumed_index].start,
-                        Some(left_success_data.consumed_index),
-                    ))
-                }
-                let tree = ASTNode::new(
-                    suffixes[*i].1.clone(),
-                    stream[index].start,
-                    stream[left_success_data.consumed_index].start,
-                    Some((index, left_success_data.consumed_index)),
-                    left_success_data.children,
-                );
-                return Ok(SuccessData::tree(left_success_data.consumed_index, tree));
-            }
         }
         if self.standalone {
             #[cfg(debug_assertions)]
-- 
2.43.0


From 5a80eac9401d3a1260b23c598dfeb0447826b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:22 +0000
Subject: [PATCH 18/27] fix: alternatives following a nullable one must remain
 candidates

---
 src/production/non_terminals/suffixes.rs | 5 +++--
 src/production/non_terminals/union.rs    | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 11bc574..6aba3a7 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -108,11 +108,12 @@ impl<TP: IProduction> Suffixes<TP> {
     fn obtain_suffixes_set(&self) -> &(bool, Vec<(TP::Token, Vec<usize>)>) {
         self.suffix_first_set.get_or_init(|| {
             let mut children_set: HashMap<TP::Token, Vec<usize>> = HashMap::new();
+            let mut null_indices: Vec<usize> = Vec::new();
             for (index, (prod, _)) in self.get_suffixes().iter().enumerate() {
                 let mut child_set = HashSet::new();
                 prod.impl_first_set(&mut child_set);
                 for t in child_set {
-                    let v = children_set.entry(t).or_insert_with(|| Vec::new());
+                    let v = children_set.entry(t).or_insert_with(|| null_indices.clone());
                     v.push(index);
                 }
                 if prod.is_nullable() {
@@ -121,7 +122,7 @@ impl<TP: IProduction> Suffixes<TP> {
                             v.push(index);
                         }
                     }
-                    break;
+                    null_indices.push(index);
                 }
             }
 
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index ad593bd..698660d 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -80,12 +80,13 @@ impl<TN: NodeImpl, TL: TokenImpl> Union<TN, TL> {
     fn obtain_first_set(&self) -> &(bool, Vec<(TL, Vec<usize>)>) {
         self.first_set.get_or_init(|| {
             let mut children_set: HashMap<TL, Vec<usize>> = HashMap::new();
+            let mut null_indices: Vec<usize> = Vec::new();
             for (index, prod) in self.get_productions().iter().enumerate() {
                 let mut child_set = HashSet::new();
                 prod.impl_first_set(&mut child_set);
 
                 for t in child_set {
-                    let indexes = children_set.entry(t).or_insert_with(|| Vec::new());
+                    let indexes = children_set.entry(t).or_insert_with(|| null_indices.clone());
                     indexes.push(index);
                 }
                 if prod.is_nullable() {
@@ -94,7 +95,8 @@ impl<TN: NodeImpl, TL: TokenImpl> Union<TN, TL> {
                             v.push(index);
                         }
                     }
-                    break; // We do not want to visit more production if we find nullable production.
+                    // A nullable production may still fail, and the following productions be parsed.
+                    null_indices.push(index);
                 }
             }
 
-- 
2.43.0


From 8bcff3ce15287418017e396c60a3d420e58fba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:23 +0000
Subject: [PATCH 19/27] fix: prediction must consider the symbols starting with
 the structural and the non-structural token

---
 src/production/non_terminals/mod.rs      | 44 +++++++++++++++++++++++-
 src/production/non_terminals/suffixes.rs | 37 +++-----------------
 src/production/non_terminals/union.rs    | 37 +++-----------------
 3 files changed, 51 insertions(+), 67 deletions(-)

diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index 4e20ce0..68481b4 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -1,7 +1,8 @@
 use super::{NTHelper, ProductionLogger};
-use crate::{ImplementationError, Log};
+use crate::{FltrPtr, ImplementationError, Log, TokenImpl, TokenPtr, TokenStream};
 use once_cell::unsync::OnceCell;
 use std::{
+    borrow::Cow,
     collections::{HashMap, HashSet},
     fmt::Write,
 };
@@ -32,6 +33,47 @@ fn build_circular_format(id: &str, connected_set: &HashMap<&str, usize>) -> Stri
     }
 }
 
+/// Obtain the indices of the symbols which can be parsed at the given position of the stream, based on the
+/// immediate structural token, and the immediate non-structural token when any symbol starts with one.
+fn predict_symbols<'s, TL: TokenImpl>(
+    (is_structural, first_sets): &'s (bool, Vec<(TL, Vec<usize>)>),
+    fltr_ptr: FltrPtr,
+    token_stream: &TokenStream<TL>,
+) -> Option<Cow<'s, [usize]>> {
+    let find = |token: &TL| {
+        first_sets
+            .binary_search_by_key(token, |(t, _)| *t)
+            .ok()
+            .map(|i| &first_sets[i].1)
+    };
+    let structural = find(&token_stream[fltr_ptr].token);
+    if *is_structural {
+        return structural.map(|v| Cow::from(v));
+    }
+
+    let token_ptr = if fltr_ptr > FltrPtr::default() {
+        token_stream.get_token_ptr(fltr_ptr - 1) + 1
+    } else {
+        TokenPtr::default()
+    };
+    let token = &token_stream[token_ptr].token;
+    let non_structural = if token.is_structural() {
+        None
+    } else {
+        find(token)
+    };
+
+    match (structural, non_structural) {
+        (Some(a), Some(b)) => {
+            let mut indices: Vec<usize> = a.iter().chain(b).copied().collect();
+            indices.sort();
+            indices.dedup();
+            Some(Cow::from(indices))
+        }
+        (a, b) => a.or(b).map(|v| Cow::from(v)),
+    }
+}
+
 impl NTHelper {
     fn new(identifier: &'static str) -> Self {
         Self {
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 6aba3a7..36889ee 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -1,3 +1,4 @@
+use super::predict_symbols;
 use crate::production::NTHelper;
 #[cfg(debug_assertions)]
 use crate::production::ProductionLogger;
@@ -10,6 +11,7 @@ use crate::{
 
 use once_cell::unsync::OnceCell;
 use std::{
+    borrow::Cow,
     collections::{HashMap, HashSet},
     fmt::Display,
     rc::Rc,
@@ -292,42 +294,11 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
 
         let suffixes = self.get_suffixes();
 
-        let (is_structural, suffix_first_set) = self.obtain_suffixes_set();
-
         let moved_ptr: FltrPtr = left_success_data.consumed_index;
-        let immediate_lex = &token_stream[moved_ptr];
-
-        let mut production_set_index: Option<usize> = None;
-        match suffix_first_set.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            Ok(p_index) => {
-                production_set_index = Some(p_index);
-            }
-            Err(_) => {
-                if !is_structural {
-                    let current_token_ptr = if moved_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(moved_ptr - 1) + 1
-                    } else {
-                        TokenPtr::default()
-                    };
-
-                    let current_token_lex = &token_stream[current_token_ptr];
-
-                    if !current_token_lex.token.is_structural() {
-                        if let Ok(p_index) = suffix_first_set
-                            .binary_search_by_key(&current_token_lex.token, |(t, _)| *t)
-                        {
-                            production_set_index = Some(p_index);
-                        }
-                    }
-                }
-            }
-        }
 
         // Without a predicted suffix only nullable suffixes can be parsed.
-        let indices = match production_set_index {
-            Some(p_index) => &suffix_first_set[p_index].1,
-            None => self.obtain_null_suffixes(),
-        };
+        let indices = predict_symbols(self.obtain_suffixes_set(), moved_ptr, token_stream)
+            .unwrap_or_else(|| Cow::from(self.obtain_null_suffixes()));
         for (prod, node_value) in indices.iter().map(|j| &suffixes[*j]) {
             match prod.advance_fltr_ptr(
                 code,
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 698660d..b3f197a 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -1,3 +1,4 @@
+use super::predict_symbols;
 use crate::production::NTHelper;
 #[cfg(debug_assertions)]
 use crate::production::ProductionLogger;
@@ -236,41 +237,11 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
         #[cfg(debug_assertions)]
         self.nt_helper.log_entry();
 
-        let immediate_lex = &token_stream[fltr_ptr];
-
-        let (is_structural, first_sets) = self.obtain_first_set();
-
         let productions = self.get_productions();
 
-        let mut production_set_index: Option<usize> = None;
-
-        match first_sets.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            Ok(p_index) => {
-                production_set_index = Some(p_index);
-            }
-            Err(_) => {
-                if !is_structural {
-                    let current_token_ptr = if fltr_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(fltr_ptr - 1) + 1
-                    } else {
-                        TokenPtr::default()
-                    };
-
-                    let current_token_lex = &token_stream[current_token_ptr];
-
-                    if !current_token_lex.token.is_structural() {
-                        if let Ok(p_i) =
-                            first_sets.binary_search_by_key(&current_token_lex.token, |(t, _)| *t)
-                        {
-                            production_set_index = Some(p_i);
-                        }
-                    }
-                }
-            }
-        }
-        match production_set_index {
-            Some(p_index) => {
-                for prod in first_sets[p_index].1.iter().map(|j| &productions[*j]) {
+        match predict_symbols(self.obtain_first_set(), fltr_ptr, token_stream) {
+            Some(indices) => {
+                for prod in indices.iter().map(|j| &productions[*j]) {
                     match prod.advance_fltr_ptr(code, fltr_ptr, token_stream, cache) {
                         Ok(s) => {
                             #[cfg(debug_assertions)]
-- 
2.43.0


From ddbd80132113a40ecb701afa1df4556f5f0e5678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:53 +0000
Subject: [PATCH 20/27] fix: a parse error must point to the first unmatched
 token, also when it is adjacent to the matched one

---
 src/cache.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 38b91a3..1caecd8 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -66,8 +66,7 @@ impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
         let pointer = match err {
             ProductionError::Unparsed => {
                 let failed_index = match stream.filtered_index_at(self.max_parsed_point) {
-                    Ok(i) => i + 1,
-                    Err(i) => i,
+                    Ok(i) | Err(i) => i,
                 };
 
                 match stream.get(failed_index) {
-- 
2.43.0


From 4971a684a23efbf35f234eaaa9ad971b1f90858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:53 +0000
Subject: [PATCH 21/27] fix: an error message for a multi-byte character must
 be valid utf-8

---
 src/cache.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 1caecd8..514c518 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -74,11 +74,9 @@ impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
                         if lex_data.token == TL::eof() {
                             writeln!(error_message, "Unexpected end of file.").unwrap();
                         } else {
-                            let s = unsafe {
-                                std::str::from_utf8_unchecked(
-                                    &code.value[lex_data.start..lex_data.end],
-                                )
-                            };
+                            let s = String::from_utf8_lossy(
+                                &code.value[lex_data.start..lex_data.end],
+                            );
                             if cfg!(debug_assertions) {
                                 writeln!(
                                     error_message,
@@ -119,13 +117,12 @@ impl<TToken> Cache<usize, TToken> {
                     (self.get_index(), format!("Unexpected end of file."))
                 } else {
                     let failed_index = self.get_index();
+                    // The bytes of a single utf-8 character.
+                    let end = std::cmp::min(failed_index + 4, code.value.len());
+                    let s = String::from_utf8_lossy(&code.value[failed_index..end]);
                     (
                         failed_index,
-                        format!("Unexpected '{}'.", unsafe {
-                            std::str::from_utf8_unchecked(
-                                &code.value[failed_index..failed_index + 1],
-                            )
-                        },),
+                        format!("Unexpected '{}'.", s.chars().next().unwrap_or_default()),
                     )
                 }
             }
-- 
2.43.0


From 5e7e199f046d01790edcc82b1b612c5fdee934f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:54 +0000
Subject: [PATCH 22/27] fix: the column of a position must count the bytes
 since the last line break

---
 src/position.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index dfc3031..49dcfea 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -11,16 +11,15 @@ impl Position {
 
 impl From<&[u8]> for Position {
     fn from(code: &[u8]) -> Self {
-        let mut pointer: usize = 0;
+        let mut line_start: usize = 0;
         let mut line: usize = 0;
-        for c in code {
+        for (index, c) in code.iter().enumerate() {
             if *c == b'\n' {
                 line += 1;
+                line_start = index + 1;
             }
-            pointer += 1;
         }
-        let s = unsafe { std::str::from_utf8_unchecked(&code[pointer..]) };
-        Position::new(line + 1, s.len() + 1)
+        Position::new(line + 1, code.len() - line_start + 1)
     }
 }
 
-- 
2.43.0


From 7a55be8b3ac0ab4aa62c9ac3d1aaa68ce9db91df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:46 +0000
Subject: [PATCH 23/27] verification hook: constructor of CacheKey behind
 cfg(lang_pt_verif)

---
 src/cache.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cache.rs b/src/cache.rs
index 514c518..7552b8e 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -136,3 +136,12 @@ impl<TToken> Cache<usize, TToken> {
         ParseError::new(pointer, error_message)
     }
 }
+
+#[allow(unexpected_cfgs)]
+#[cfg(lang_pt_verif)]
+impl CacheKey {
+    /// Create a key to verify [Cacheable](crate::production::Cacheable) productions.
+    pub fn verif_new(key: usize) -> Self {
+        Self(key)
+    }
+}
-- 
2.43.0


From a9f202a18857253471ba65be5ad6d1e53325e7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 24/27] fix: prediction in the non-filtered stream must
 consider the symbols parsing the next structural token

---
 src/production/non_terminals/mod.rs      | 55 ++++++++++++++++++------
 src/production/non_terminals/suffixes.rs | 12 ++----
 src/production/non_terminals/union.rs    |  6 +--
 3 files changed, 48 insertions(+), 25 deletions(-)

diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index 68481b4..b9a1f9b 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -40,15 +40,9 @@ fn predict_symbols<'s, TL: TokenImpl>(
     fltr_ptr: FltrPtr,
     token_stream: &TokenStream<TL>,
 ) -> Option<Cow<'s, [usize]>> {
-    let find = |token: &TL| {
-        first_sets
-            .binary_search_by_key(token, |(t, _)| *t)
-            .ok()
-            .map(|i| &first_sets[i].1)
-    };
-    let structural = find(&token_stream[fltr_ptr].token);
+    let structural = &token_stream[fltr_ptr].token;
     if *is_structural {
-        return structural.map(|v| Cow::from(v));
+        return find_symbols(first_sets, structural).map(|v| Cow::from(v));
     }
 
     let token_ptr = if fltr_ptr > FltrPtr::default() {
@@ -57,13 +51,48 @@ fn predict_symbols<'s, TL: TokenImpl>(
         TokenPtr::default()
     };
     let token = &token_stream[token_ptr].token;
-    let non_structural = if token.is_structural() {
-        None
+    if token.is_structural() {
+        find_symbols(first_sets, structural).map(|v| Cow::from(v))
     } else {
-        find(token)
-    };
+        merge_symbols(first_sets, structural, token)
+    }
+}
+
+/// Obtain the indices of the symbols which can be parsed at the given position of the non-filtered stream,
+/// based on the immediate token and, for the symbols parsing the structural tokens, the next structural token.
+fn predict_symbols_at<'s, TL: TokenImpl>(
+    first_sets: &'s Vec<(TL, Vec<usize>)>,
+    token_ptr: TokenPtr,
+    token_stream: &TokenStream<TL>,
+) -> Option<Cow<'s, [usize]>> {
+    let token = &token_stream[token_ptr].token;
+    match token_stream.find_filter_ptr(token_ptr) {
+        Err(fltr_ptr) if token_stream.has_stream(fltr_ptr) => {
+            merge_symbols(first_sets, token, &token_stream[fltr_ptr].token)
+        }
+        _ => find_symbols(first_sets, token).map(|v| Cow::from(v)),
+    }
+}
 
-    match (structural, non_structural) {
+fn find_symbols<'s, TL: TokenImpl>(
+    first_sets: &'s Vec<(TL, Vec<usize>)>,
+    token: &TL,
+) -> Option<&'s Vec<usize>> {
+    first_sets
+        .binary_search_by_key(token, |(t, _)| *t)
+        .ok()
+        .map(|i| &first_sets[i].1)
+}
+
+fn merge_symbols<'s, TL: TokenImpl>(
+    first_sets: &'s Vec<(TL, Vec<usize>)>,
+    first: &TL,
+    second: &TL,
+) -> Option<Cow<'s, [usize]>> {
+    match (
+        find_symbols(first_sets, first),
+        find_symbols(first_sets, second),
+    ) {
         (Some(a), Some(b)) => {
             let mut indices: Vec<usize> = a.iter().chain(b).copied().collect();
             indices.sort();
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 36889ee..e3f5967 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -1,4 +1,4 @@
-use super::predict_symbols;
+use super::{predict_symbols, predict_symbols_at};
 use crate::production::NTHelper;
 #[cfg(debug_assertions)]
 use crate::production::ProductionLogger;
@@ -378,15 +378,9 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
 
         let (_, suffix_first_set) = self.obtain_suffixes_set();
 
-        let immediate_lex = &stream[moved_ptr];
-
         // Without a predicted suffix only nullable suffixes can be parsed.
-        let indices = match suffix_first_set
-            .binary_search_by_key(&immediate_lex.token, |(t, _)| *t)
-        {
-            Ok(i) => &suffix_first_set[i].1,
-            Err(_) => self.obtain_null_suffixes(),
-        };
+        let indices = predict_symbols_at(suffix_first_set, moved_ptr, stream)
+            .unwrap_or_else(|| Cow::from(self.obtain_null_suffixes()));
         for (prod, node_value) in indices.iter().map(|j| &suffixes[*j]) {
             match prod.advance_token_ptr(code, moved_ptr, stream, cache) {
                 Ok(success_data) => {
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index b3f197a..8f82e32 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -1,4 +1,4 @@
-use super::predict_symbols;
+use super::{predict_symbols, predict_symbols_at};
 use crate::production::NTHelper;
 #[cfg(debug_assertions)]
 use crate::production::ProductionLogger;
@@ -301,8 +301,8 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
         let (_, first_sets) = self.obtain_first_set();
 
         let productions = self.get_productions();
-        if let Ok(p_index) = first_sets.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            for prod in first_sets[p_index].1.iter().map(|j| &productions[*j]) {
+        if let Some(indices) = predict_symbols_at(first_sets, index, token_stream) {
+            for prod in indices.iter().map(|j| &productions[*j]) {
                 match prod.advance_token_ptr(code, index, token_stream, cache) {
                     Ok(s) => {
                         #[cfg(debug_assertions)]
-- 
2.43.0


From a9631af10ffc5117084d5f00ed299d959ccfec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:41 +0000
Subject: [PATCH 25/27] fix: symbols which never move the position count as
 nullable

Concat[Lookahead(a), P], Concat[NonStructural(w), P] and Concat[EOF, P]
as definitions of P passed the left recursion validation and overflowed
the stack when parsing.
---
 src/production/terminals/eof.rs           | 5 +++--
 src/production/wrappers/look_ahead.rs     | 6 ++++--
 src/production/wrappers/non_structural.rs | 6 ++++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/production/terminals/eof.rs b/src/production/terminals/eof.rs
index fa07f70..252f75f 100644
--- a/src/production/terminals/eof.rs
+++ b/src/production/terminals/eof.rs
@@ -46,14 +46,15 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for EOFProd<TN, TL> {
     type Token = TL;
 
     fn is_nullable(&self) -> bool {
-        false
+        // The end of the input is matched without moving the position.
+        true
     }
 
     fn obtain_nullability<'id>(
         &'id self,
         _: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        Ok(false)
+        Ok(true)
     }
 
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TL>) {
diff --git a/src/production/wrappers/look_ahead.rs b/src/production/wrappers/look_ahead.rs
index f8c637b..39fcf4f 100644
--- a/src/production/wrappers/look_ahead.rs
+++ b/src/production/wrappers/look_ahead.rs
@@ -55,7 +55,8 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
 
     #[inline]
     fn is_nullable(&self) -> bool {
-        self.get_production().is_nullable()
+        // A lookahead never moves the position.
+        true
     }
 
     fn impl_grammar(
@@ -70,7 +71,8 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
         &'id self,
         visited: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        self.production.obtain_nullability(visited)
+        self.production.obtain_nullability(visited)?;
+        Ok(true)
     }
 
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TProd::Token>) {
diff --git a/src/production/wrappers/non_structural.rs b/src/production/wrappers/non_structural.rs
index 662b7b1..78f5c0d 100644
--- a/src/production/wrappers/non_structural.rs
+++ b/src/production/wrappers/non_structural.rs
@@ -54,7 +54,8 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
 
     #[inline]
     fn is_nullable(&self) -> bool {
-        self.get_symbol().is_nullable()
+        // The position in the filtered stream is never moved.
+        true
     }
 
     fn impl_grammar(
@@ -69,7 +70,8 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
         &'id self,
         visited: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        self.production.obtain_nullability(visited)
+        self.production.obtain_nullability(visited)?;
+        Ok(true)
     }
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TProd::Token>) {
         self.production.impl_first_set(first_set)
-- 
2.43.0


From 0f5bab9320b6ab4d5ba9249ec957e670960782ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 26/27] fix: print the optional trailing separator of the
 separated lists which allow it

---
 src/production/wrappers/separated_list.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index ca585ef..dcb5e11 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -121,7 +121,7 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Displ
                     p = self.get_production(),
                     s = self.get_separator()
                 )?;
-                if !self.inclusive {
+                if self.inclusive {
                     write!(f, " ({})?", self.get_separator())?;
                 }
                 Ok(())
@@ -172,8 +172,8 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
                         s = self.get_separator()
                     )?;
 
-                    if !self.inclusive {
-                        writeln!(writer, " ({})?", self.get_separator()).unwrap();
+                    if self.inclusive {
+                        writeln!(writer, " ({})?", self.get_separator())?;
                     } else {
                         writeln!(writer, "")?;
                     }
-- 
2.43.0


From f7961dee83248d547cb96572d224aa28f5d248ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 27/27] fix: print the rules of the symbols of unions and
 suffixes

---
 src/production/non_terminals/suffixes.rs | 7 +++++++
 src/production/non_terminals/union.rs    | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index e3f5967..26f8a01 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -240,6 +240,13 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             if self.standalone {
                 writeln!(writer, "{:>6} {}", "|", self.left)?;
             }
+            writeln!(writer, "{:>6}", ";")?;
+            writeln!(writer, "")?;
+
+            self.left.impl_grammar(writer, visited)?;
+            for (prod, _) in self.get_suffixes() {
+                prod.impl_grammar(writer, visited)?;
+            }
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 8f82e32..5a3707d 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -197,6 +197,12 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
                     writeln!(writer, "{:>6} {}", "|", prod)?;
                 }
             }
+            writeln!(writer, "{:>6}", ";")?;
+            writeln!(writer, "")?;
+
+            for prod in self.get_productions() {
+                prod.impl_grammar(writer, visited)?;
+            }
         }
         Ok(())
     }
-- 
2.43.0

