From 410031d6c315f26355812c0671650a3d05756c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 01/14] fix: add terminals of nullable non-terminals to FIRST
 sets

A production starting with a nullable non-terminal lost that non-terminal's
terminals, so valid inputs were rejected.
---
 src/first.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/first.rs b/src/first.rs
index 3694540..1fb018f 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -76,14 +76,15 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                     match &symbol.symbol {
                         Symbol::NonTerminal(nt) => {
                             let FirstSet { empty, terminals } = table.get_first(*nt);
-                            if *empty {
-                                // Continue to the next symbol in the production
-                                continue;
-                            }
+                            let empty = *empty;
                             // TODO: clone below to avoid borrowck issues
                             for terminal in terminals.clone() {
                                 updated |= table.add_first(non_terminal_idx, terminal);
                             }
+                            if empty {
+                                // Continue to the next symbol in the production
+                                continue;
+                            }
                             continue 'production_loop;
                         }
                         Symbol::Terminal(terminal) => {
-- 
2.43.0


From 9e94735680f460c5861d0ce5495faf03c3251246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 02/14] fix: iterate FIRST computation when a non-terminal
 becomes nullable

The fixpoint could stop before a late discovered nullable non-terminal was
taken into account in the productions using it.
---
 src/first.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/first.rs b/src/first.rs
index 1fb018f..1a838dd 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -95,7 +95,7 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                 }
                 // If we reached here then all symbols in the production are empty, so the
                 // non-terminal can be empty
-                table.set_empty(non_terminal_idx);
+                updated |= table.set_empty(non_terminal_idx);
             }
         }
     }
-- 
2.43.0


From f0537972b31afc4586cadc87b83ad5788afd524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 03/14] fix: report accept/reduce conflicts instead of
 overriding the reduce

Overriding Accept with Reduce was reported, the other order was not, so some
ambiguous grammars were accepted depending on the item order.
---
 src/lr_common.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lr_common.rs b/src/lr_common.rs
index 2c9e923..5bacbd0 100644
--- a/src/lr_common.rs
+++ b/src/lr_common.rs
@@ -148,13 +148,19 @@ impl<A: fmt::Debug + Eq> LRTableBuilder<A> {
     }
 
     pub fn add_accept(&mut self, state: StateIdx) {
-        let _old = self
+        let old_action = self
             .table
             .action
             .entry(state)
             .or_default()
             .insert(None, LRAction::Accept);
-        // assert_eq!(old, None);
+
+        if let Some(LRAction::Reduce(nt_, p_, _)) = old_action {
+            panic!(
+                "({}, EOF): Overriding Reduce({}, {}) action with Accept",
+                state.0, nt_.0, p_.0,
+            );
+        }
     }
 
     pub fn add_goto(&mut self, state: StateIdx, non_terminal_idx: NonTerminalIdx, next: StateIdx) {
-- 
2.43.0


From 97b92958891b837e8e3177624e9459b79cf72a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 04/14] fix: reject non-terminals that are defined multiple
 times

The second definition silently replaced the first one in references, giving
parsers that reject everything.
---
 src/lower.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lower.rs b/src/lower.rs
index c22a550..184e583 100644
--- a/src/lower.rs
+++ b/src/lower.rs
@@ -27,6 +27,10 @@ pub fn lower(
     };
 
     for nt in &non_terminals {
+        if nt_indices.contains_key(&nt.name.to_string()) {
+            panic!("Non-terminal {} defined multiple times", nt.name);
+        }
+
         if nt.visibility.is_pub() {
             // For a `pub` non-terminal:
             //
-- 
2.43.0


From 435b109bf48348dc9012b2779cd09fe635413c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 05/14] fix: keep the trailing comma of one element tuple
 patterns

`(<u32>,)` was turned into `(f0)`, which does not match a tuple.
---
 src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 1245dd8..8a4e2e0 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -436,7 +436,7 @@ fn generate_pattern_syn_with_idents_(pat: &Pattern, idents: &mut Vec<syn::Ident>
                 .map(|pat| generate_pattern_syn_with_idents_(pat, idents))
                 .collect();
 
-            quote!((#(#pats),*))
+            quote!((#(#pats,)*))
         }
 
         Pattern::Path(path) => quote!(#path),
-- 
2.43.0


From 3ab23443c170346799e1db896543d26b70847a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 06/14] fix: allow binders named value_stack

The parameter of the generated action functions clashed with the binder. A
hygienic name cannot.
---
 src/codegen.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 8a4e2e0..55dd1a1 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -27,6 +27,9 @@ pub fn generate_semantic_action_table(
         terminals,
     } = grammar;
 
+    // Not visible to the binders and the semantic actions of the user
+    let value_stack = syn::Ident::new("value_stack", Span::mixed_site());
+
     // Action function declarations and the array
     let mut decls: Vec<TokenStream> = vec![];
     let mut fn_names: Vec<syn::Ident> = vec![];
@@ -55,7 +58,7 @@ pub fn generate_semantic_action_table(
                         for BoundSymbol { binder, symbol: kind } in symbols.iter().rev() {
                             match binder {
                                 None => {
-                                    pop_code.push(quote!(value_stack.pop()));
+                                    pop_code.push(quote!(#value_stack.pop()));
                                 }
                                 Some(Name {
                                     mutable,
@@ -73,7 +76,7 @@ pub fn generate_semantic_action_table(
                                         ),
                                     };
                                     pop_code.push(quote!(
-                                        let #mut_ #name = value_stack.pop().unwrap().#extract_method()
+                                        let #mut_ #name = #value_stack.pop().unwrap().#extract_method()
                                     ));
                                 }
                             }
@@ -92,10 +95,10 @@ pub fn generate_semantic_action_table(
 
                         decls.push(quote!(
                             fn #fn_name<#(#token_lifetimes),*>(
-                                value_stack: &mut Vec<SemanticActionResult<#(#token_lifetimes),*>>
+                                #value_stack: &mut Vec<SemanticActionResult<#(#token_lifetimes),*>>
                             ) {
                                 #(#pop_code;)*
-                                value_stack.push(SemanticActionResult::#non_terminal_variant(#action));
+                                #value_stack.push(SemanticActionResult::#non_terminal_variant(#action));
                             }
                         ));
 
-- 
2.43.0


From 6148f906d371472437309cb30f6fd636a80cc6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 07/14] fix: do not capture user types named E or R in
 generated generics

A value or token type with the name of a generated type parameter referred to
the parameter instead of the user's type.
---
 src/lr_codegen.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lr_codegen.rs b/src/lr_codegen.rs
index a1bb892..c3b30e1 100644
--- a/src/lr_codegen.rs
+++ b/src/lr_codegen.rs
@@ -102,9 +102,9 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
                 pub struct #non_terminal_name_id;
 
                 impl #non_terminal_name_id {
-                    pub fn parse<#(#token_lifetimes,)* E: Clone>(
-                        input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes,)*>, E>>
-                    ) -> Result<#non_terminal_return_type, ParseError<E>>
+                    pub fn parse<#(#token_lifetimes,)* LexerError_: Clone>(
+                        input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes,)*>, LexerError_>>
+                    ) -> Result<#non_terminal_return_type, ParseError<LexerError_>>
                     {
                         parse_generic(
                             input,
@@ -171,12 +171,12 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
         // Maps terminals to their strings to be used in error messages
         #token_to_text_table
 
-        fn parse_generic<#(#token_lifetimes,)* R, E: Clone>(
-            mut input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes),*>, E>>,
-            extract_value: fn(SemanticActionResult<#(#token_lifetimes),*>) -> R,
+        fn parse_generic<#(#token_lifetimes,)* Value_, LexerError_: Clone>(
+            mut input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes),*>, LexerError_>>,
+            extract_value: fn(SemanticActionResult<#(#token_lifetimes),*>) -> Value_,
             init_state: u32,
             action_idx: usize,
-        ) -> Result<R, ParseError<E>>
+        ) -> Result<Value_, ParseError<LexerError_>>
         {
             let mut state_stack: Vec<u32> = vec![init_state];
             let mut value_stack: Vec<SemanticActionResult<#(#token_lifetimes),*>> = vec![];
-- 
2.43.0


From 981e21cd0cee76ea566d05130045d98281b4bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 08/14] fix: let return in a semantic action give the
 production's value

An action like `{ return; }` compiled, but returned from the generated
function before its value was pushed, and the parser panicked later.
---
 src/codegen.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 55dd1a1..d616f8d 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -98,7 +98,10 @@ pub fn generate_semantic_action_table(
                                 #value_stack: &mut Vec<SemanticActionResult<#(#token_lifetimes),*>>
                             ) {
                                 #(#pop_code;)*
-                                #value_stack.push(SemanticActionResult::#non_terminal_variant(#action));
+                                // A closure, so that `return` in the action ends the action
+                                #value_stack.push(SemanticActionResult::#non_terminal_variant(
+                                    (move || -> #return_ty { #action })()
+                                ));
                             }
                         ));
 
-- 
2.43.0


From ccc9d393afcae7e09f45fb14727ea443f4553387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 09/14] fix: accept token lifetimes that no value uses

The lifetimes of the token type are parameters of SemanticActionResult; one
that no chosen type mentions was an error (E0392).
---
 src/codegen.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/codegen.rs b/src/codegen.rs
index d616f8d..e527daf 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -344,6 +344,14 @@ pub fn semantic_action_result_type<A>(
         }
     }
 
+    // The token type may have lifetimes that no variant uses
+    if !token_lifetimes.is_empty() {
+        variants.push(quote!(
+            #[allow(dead_code)]
+            Lifetimes(::std::marker::PhantomData<(#(&#token_lifetimes (),)*)>)
+        ));
+    }
+
     let code = quote!(
         #[derive(Debug)]
         enum #semantic_action_result_type_name<#(#token_lifetimes),*> {
-- 
2.43.0


From 103814d6e271f1955422b8c5291699cc0a29e5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 10/14] fix: let constants and string literals match whole
 tokens

---
 src/codegen.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index e527daf..24e5a69 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -167,12 +167,14 @@ pub fn token_terminal_idx_fn(tokens: &TokenEnum) -> (syn::Ident, TokenStream) {
         })
         .collect();
 
+    // Patterns here don't bind anything, so this doesn't move the token. Matching on the reference
+    // would not work for constants and string literals.
     let code = quote!(
         fn #fn_name<#(#type_lifetimes),*>(
             #arg_name: &#type_name<#(#type_lifetimes),*>
         ) -> usize
         {
-            match #arg_name {
+            match *#arg_name {
                 #(#match_alts,)*
             }
         }
-- 
2.43.0


From c4feea4425f77d5b9ba1d1f2373717731c7af596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 11/14] fix: do not drop literals other than strings in
 productions

symbol0 tried LitStr::parse first, which consumes the literal even when it
fails, so `'+' Expr` was accepted as `Expr`.
---
 src/ast.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 58e7768..9c17bb9 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -397,9 +397,10 @@ impl Parse for Symbol {
 }
 
 fn symbol0(input: &ParseBuffer) -> syn::Result<Symbol> {
-    // TODO: No peek for LitStr?
-    if let Ok(str) = input.parse::<syn::LitStr>() {
-        return Ok(Symbol::Terminal(str));
+    // Not `if let Ok(..) = input.parse::<LitStr>()`: when that fails on another literal the literal
+    // is consumed
+    if input.peek(syn::LitStr) {
+        return Ok(Symbol::Terminal(input.parse::<syn::LitStr>()?));
     }
 
     if let Ok(ident) = input.parse::<syn::Ident>() {
-- 
2.43.0


From 0f9c27f27e27a4873f902816f202894215d92aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 12/14] fix: refuse suffixes of string literals in grammars

`"("Expr")"` was accepted as `"(" ")"`: Expr is a suffix of the literal.
---
 src/ast.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 9c17bb9..b95d17c 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -247,7 +247,7 @@ impl Parse for Pattern {
 impl Parse for Conversion {
     fn parse(input: &ParseBuffer) -> syn::Result<Self> {
         let span = input.span();
-        let from = input.parse::<syn::LitStr>()?;
+        let from = terminal_name(input)?;
         input.parse::<syn::token::FatArrow>()?;
         let to = input.parse::<Pattern>()?;
         Ok(Conversion {
@@ -396,11 +396,23 @@ impl Parse for Symbol {
     }
 }
 
+/// Parses a string literal without a suffix: in `"("Expr` the `Expr` part is a suffix of the literal
+fn terminal_name(input: &ParseBuffer) -> syn::Result<syn::LitStr> {
+    let str = input.parse::<syn::LitStr>()?;
+    if !str.suffix().is_empty() {
+        return Err(syn::Error::new(
+            str.span(),
+            format!("Unexpected suffix in string literal: {:?}", str.suffix()),
+        ));
+    }
+    Ok(str)
+}
+
 fn symbol0(input: &ParseBuffer) -> syn::Result<Symbol> {
     // Not `if let Ok(..) = input.parse::<LitStr>()`: when that fails on another literal the literal
     // is consumed
     if input.peek(syn::LitStr) {
-        return Ok(Symbol::Terminal(input.parse::<syn::LitStr>()?));
+        return Ok(Symbol::Terminal(terminal_name(input)?));
     }
 
     if let Ok(ident) = input.parse::<syn::Ident>() {
-- 
2.43.0


From a5f62623e4111eb9a2b461e14a4f8b3384151de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:47 +0000
Subject: [PATCH 13/14] fix: accept raw identifiers as names of pub
 non-terminals and token types

---
 src/codegen.rs    | 3 ++-
 src/lr_codegen.rs | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 24e5a69..259a67d 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -5,6 +5,7 @@ use crate::lr_common::{LRTable, StateIdx};
 
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub struct SemanticActionIdx(u16);
@@ -153,7 +154,7 @@ pub fn token_terminal_idx_fn(tokens: &TokenEnum) -> (syn::Ident, TokenStream) {
     } = tokens;
 
     let fn_name = syn::Ident::new(
-        &(type_name.to_string().to_lowercase() + "_terminal_idx"),
+        &(type_name.unraw().to_string().to_lowercase() + "_terminal_idx"),
         type_name.span(),
     );
     let arg_name = syn::Ident::new("token", type_name.span());
diff --git a/src/lr_codegen.rs b/src/lr_codegen.rs
index c3b30e1..a7d5a6e 100644
--- a/src/lr_codegen.rs
+++ b/src/lr_codegen.rs
@@ -81,8 +81,9 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
         .map(|(non_terminal_idx, parser_state)| {
             let parser_state = u32::try_from(parser_state.as_usize()).unwrap();
             let non_terminal = grammar.get_non_terminal(non_terminal_idx);
-            let non_terminal_name_id =
-                syn::Ident::new(&non_terminal.non_terminal, Span::call_site());
+            // Parsed as the name can be a raw identifier, which `Ident::new` does not accept
+            let non_terminal_name_id: syn::Ident =
+                syn::parse_str(&non_terminal.non_terminal).unwrap();
             let non_terminal_return_type = &non_terminal.return_ty;
             let action_idx = usize::from(
                 grammar
-- 
2.43.0


From 2a0623127f919cb856221dc527b638ae6001bcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 14/14] fix: do not let pub non-terminals capture binders of
 the same name

---
 src/lr_codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lr_codegen.rs b/src/lr_codegen.rs
index a7d5a6e..c90263a 100644
--- a/src/lr_codegen.rs
+++ b/src/lr_codegen.rs
@@ -100,7 +100,7 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
             );
 
             quote!(
-                pub struct #non_terminal_name_id;
+                pub struct #non_terminal_name_id {}
 
                 impl #non_terminal_name_id {
                     pub fn parse<#(#token_lifetimes,)* LexerError_: Clone>(
-- 
2.43.0

