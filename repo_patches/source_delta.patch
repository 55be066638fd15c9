From 4f8acb1133fe3b06a9b2e6007b50e45954431a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 01/23] fix: read the content of raw strings delimited with
 pounds

---
 meta/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 5afb4ad..4ec6ec3 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -635,6 +635,9 @@ fn parse_raw_string(pair: Pair<'_, Rule>, span: &Span) -> ParseNode {
     let span = span.from_pest(pair.as_span());
     let mut pairs = pair.into_inner();
 
+    while let Some(Rule::pound) = pairs.peek().map(|pair| pair.as_rule()) {
+        pairs.next().unwrap();
+    }
     pairs.next().unwrap(); // quote
 
     let content = pairs.next().unwrap().as_str();
-- 
2.43.0


From ded46a6a6c23485728402227634d5403ab4b0f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 02/23] fix: keep double quotes in literals that are not
 delimited by them

---
 meta/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 4ec6ec3..15c5712 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -881,7 +881,8 @@ fn parse_node(
 }
 
 fn string_content(pair: &Pair<'_, Rule>) -> Result<String, Error<Rule>> {
-    let string = unescape(pair.as_str()).ok_or(Error::new_from_span(
+    let string = pair.as_str();
+    let string = unescape(&string[1..string.len() - 1]).ok_or(Error::new_from_span(
         ErrorVariant::CustomError {
             message: "invalid string literal".to_string(),
         },
@@ -948,7 +949,6 @@ fn unescape(string: &str) -> Option<String> {
                 }
                 _ => return None,
             },
-            Some('"') => (),
             Some(c) => result.push(c),
             None => return Some(result),
         };
-- 
2.43.0


From b1e03743da13734bb51627f876353d494694e9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 03/23] fix: substitute a parameter in every argument of a call

---
 meta/src/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 15c5712..9201ae2 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -238,9 +238,13 @@ impl ParseExpr {
                 let replaced_rhs = rhs.expr.replace(arg_name, new_expr);
                 replaced_lhs || replaced_rhs
             }
-            Self::Path(_, Some(PathArgs::Call(args))) => args
-                .iter_mut()
-                .any(|arg| arg.expr.replace(arg_name, new_expr)),
+            Self::Path(_, Some(PathArgs::Call(args))) => {
+                let mut replaced = false;
+                for arg in args {
+                    replaced |= arg.expr.replace(arg_name, new_expr);
+                }
+                replaced
+            }
             _ => false,
         }
     }
-- 
2.43.0


From 6980ec954d455f96d58d22f1657539a9d45bf6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 04/23] fix: inline silent rules with arguments inside call
 arguments

---
 generator/src/typed/generator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 6d21323..99ba873 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -935,6 +935,9 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                 ParseExpr::PosPred(inner) | ParseExpr::NegPred(inner) => {
                     nodes.push(inner);
                 }
+                ParseExpr::Path(_, Some(PathArgs::Call(args))) => {
+                    nodes.extend(args.iter_mut());
+                }
                 _ => {}
             }
         }
-- 
2.43.0


From 48a96031df7dac21da3f1802b6c9adb82b57ec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 05/23] fix: name the sequence operator as it is written

---
 meta/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/error.rs b/meta/src/error.rs
index eeba133..b282387 100644
--- a/meta/src/error.rs
+++ b/meta/src/error.rs
@@ -15,7 +15,7 @@ pub fn rename_meta_rule(rule: &Rule) -> String {
         Rule::opening_paren => "`(`".to_owned(),
         Rule::positive_predicate_operator => "`&`".to_owned(),
         Rule::negative_predicate_operator => "`!`".to_owned(),
-        Rule::sequence_operator => "`&`".to_owned(),
+        Rule::sequence_operator => "`-`".to_owned(),
         Rule::choice_operator => "`|`".to_owned(),
         Rule::optional_operator => "`?`".to_owned(),
         Rule::repeat_operator => "`*`".to_owned(),
-- 
2.43.0


From de277fdd079a5a157c13c7ca22f4b04248b92ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 06/23] fix: report an import whose name is already taken

---
 generator/src/typed/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 99ba873..adcd5d2 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -627,7 +627,7 @@ fn process_rules<'g>(
                     ),
                 );
                 let imported = child_mod_sys.take();
-                mod_sys.insert(imported, name);
+                mod_sys.insert(imported, name).unwrap();
                 new_prefix.pop().unwrap();
                 Some(module)
             }
-- 
2.43.0


From cff1a5f040b5b320dd6d73a0e0c1da5673dae902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:15 +0000
Subject: [PATCH 07/23] fix: substitute the arguments of an inlined rule
 simultaneously

---
 generator/src/typed/generator.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index adcd5d2..8139d43 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -892,11 +892,16 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                                 {
                                     assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
                                     let mut new_expr = silent_rule.node.expr.clone();
-                                    for (arg, silent_arg_name) in
-                                        args.iter().zip(silent_rule.args.iter())
+                                    // Rename the parameters first: an argument may mention
+                                    // the name of another parameter.
+                                    for (i, silent_arg_name) in silent_rule.args.iter().enumerate()
                                     {
+                                        let param = ParseExpr::Path(vec![format!("#{i}")], None);
                                         replaced |=
-                                            new_expr.replace(silent_arg_name.as_str(), &arg.expr);
+                                            new_expr.replace(silent_arg_name.as_str(), &param);
+                                    }
+                                    for (i, arg) in args.iter().enumerate() {
+                                        new_expr.replace(&format!("#{i}"), &arg.expr);
                                     }
                                     if replaced {
                                         replace_expr = Some(new_expr);
-- 
2.43.0


From 4d131db71916f6fec047d2b3ada173bf4c44269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:15 +0000
Subject: [PATCH 08/23] fix: let an alias of a built-in rule refer to that rule

---
 generator/src/typed/module.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 7911490..696627f 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -39,6 +39,8 @@ pub enum RuleGenerics {
     /// Defined rule in current module.
     Rule { argc: usize },
     BuiltIn {
+        /// Name of the built-in rule, whatever alias it is called by.
+        name: &'static str,
         /// Built-in rule that accepts nothing as argument.
         ///
         /// - Whether it requires lifetime specifier.
@@ -99,16 +101,18 @@ impl RuleGenerics {
                 }
             },
             Self::BuiltIn {
+                name,
                 direct,
                 slice,
                 callable,
             } => match args {
                 None => {
+                    let builtin = format_ident!("r#{}", name);
                     let (lifetime,) =
                         direct.ok_or_else(|| ModuleError::ExpectedArguments(rule_ref.clone()))?;
                     let typename = match lifetime {
-                        true => quote! { #root::#generics::#name::<'i> },
-                        false => quote! { #root::#generics::#name },
+                        true => quote! { #root::#generics::#builtin::<'i> },
+                        false => quote! { #root::#generics::#builtin },
                     };
                     let getter = GetterByName::from_rule(&typename, name_str);
                     Intermediate { typename, getter }
@@ -129,12 +133,13 @@ impl RuleGenerics {
                     Intermediate { typename, getter }
                 }
                 Some(ProcessedPathArgs::Call(args)) => {
+                    let builtin = format_ident!("r#{}", name);
                     let (argc,) =
                         callable.ok_or_else(|| ModuleError::ExpectedArguments(rule_ref.clone()))?;
                     if let Some(argc) = argc {
                         ModuleError::check_argc(argc, args.len(), rule_ref)?;
                     }
-                    let typename = quote! { #root::#generics::#name::< #( #args, )* > };
+                    let typename = quote! { #root::#generics::#builtin::< #( #args, )* > };
                     let getter = GetterByName::from_rule(&typename, name_str);
                     Intermediate { typename, getter }
                 }
@@ -270,6 +275,7 @@ impl<'g> ModuleSystem<'g> {
                     Rc::new(
                         ModuleNode::Generics(
                             RuleGenerics::BuiltIn {
+                                name: core::stringify!($name),
                                 direct: None $( .or(Some(pest_direct! { $($direct)* })) )?,
                                 slice: None $( .or(Some(pest_slice! { $( $slice )* })) )?,
                                 callable: None $( .or(Some(pest_callable! { $( $callable )* })) )?,
-- 
2.43.0


From 2a47397a2a742c3a9e54d8e9fb46f84b2a33e4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 09/23] fix: let rules be named like items of the prelude

---
 core/src/typed/traits.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/typed/traits.rs b/core/src/typed/traits.rs
index 200ae7a..9320f58 100644
--- a/core/src/typed/traits.rs
+++ b/core/src/typed/traits.rs
@@ -137,14 +137,14 @@ macro_rules! full_rule_struct {
                 input: $crate::Position<'i>,
                 stack: &mut $crate::Stack<$crate::Span<'i>>,
                 tracker: &mut $crate::typed::Tracker<'i, $Rule>,
-            ) -> Option<($crate::Position<'i>, Self)> {
+            ) -> $crate::std::Option<($crate::Position<'i>, Self)> {
                 tracker.record_option_during(
                     input,
                     |tracker| {
                         let (pos, content) = <$inner as $crate::typed::TypedNode<'i, $Rule>>::try_parse_with_partial(input, stack, tracker)?;
                         let content = content.into();
                         let span = input.span(&pos);
-                        Some((pos, Self { content, span }))
+                        $crate::std::Some((pos, Self { content, span }))
                     },
                     $rule
                 )
@@ -153,12 +153,12 @@ macro_rules! full_rule_struct {
                 input: $crate::Position<'i>,
                 stack: &mut $crate::Stack<$crate::Span<'i>>,
                 tracker: &mut $crate::typed::Tracker<'i, $Rule>,
-            ) -> Option<$crate::Position<'i>> {
+            ) -> $crate::std::Option<$crate::Position<'i>> {
                 tracker.record_empty_during::<Self>(
                     input,
                     |tracker| {
                         let pos = <$inner>::check_with_partial(input, stack, tracker)?;
-                        Some(pos)
+                        $crate::std::Some(pos)
                     },
                     $rule
                 )
-- 
2.43.0


From 431f0b7de5f6ec9a6e5a353689984ccfbe97a0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 10/23] fix: read the registered attributes no_getter and
 box_rules_only_if_needed

---
 generator/src/typed/attr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/src/typed/attr.rs b/generator/src/typed/attr.rs
index 16ea319..b739dc7 100644
--- a/generator/src/typed/attr.rs
+++ b/generator/src/typed/attr.rs
@@ -21,8 +21,10 @@ pub(crate) fn parse_derive(ast: DeriveInput) -> (Ident, Generics, Vec<GrammarSou
             config.no_span = get_bool(attr, "no_span");
         } else if path.is_ident("no_warnings") {
             config.no_warnings = get_bool(attr, "no_warnings");
-        } else if path.is_ident("box_all_rules") {
-            config.box_rules_only_if_needed = get_bool(attr, "box_all_rules");
+        } else if path.is_ident("box_rules_only_if_needed") {
+            config.box_rules_only_if_needed = get_bool(attr, "box_rules_only_if_needed");
+        } else if path.is_ident("no_getter") {
+            config.no_getter = get_bool(attr, "no_getter");
         } else if path.is_ident("rules_mod") {
             let value = get_string(attr, "rules_mod");
             if value.is_empty() {
-- 
2.43.0


From 55c18ad7c00ea7ee60b832a49f9230d9b95ab88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:36 +0000
Subject: [PATCH 11/23] fix: refer to imported rules through the configured
 rules module

---
 generator/src/common.rs          |  8 ++++----
 generator/src/typed/generator.rs |  5 +++--
 generator/src/typed/module.rs    | 22 +++++++++++++++++-----
 generator/src/typed/output.rs    |  2 +-
 4 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/generator/src/common.rs b/generator/src/common.rs
index a6abc27..fc3d4be 100644
--- a/generator/src/common.rs
+++ b/generator/src/common.rs
@@ -40,7 +40,7 @@ pub(crate) fn generate_include(name: &Ident, paths: Vec<PathBuf>) -> TokenStream
     }
 }
 
-pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
+pub(crate) fn generate_rule_enum(module: &GrammarModule, rules_mod: &TokenStream) -> TokenStream {
     let this = pest();
     let GrammarModule {
         rules,
@@ -68,7 +68,7 @@ pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
         Import::File(name, module) => {
             let ident = format_ident!("r#{}", name);
             quote! {
-                #ident(rules::#ident::Rule),
+                #ident(#rules_mod::#ident::Rule),
             }
         }
     });
@@ -77,8 +77,8 @@ pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
         Import::File(name, module) => {
             let ident = format_ident!("r#{}", name);
             quote! {
-                impl #this::typed::SuperRule<rules::#ident::Rule> for Rule {
-                    fn cvt_from(rule: rules::#ident::Rule) -> Self {
+                impl #this::typed::SuperRule<#rules_mod::#ident::Rule> for Rule {
+                    fn cvt_from(rule: #rules_mod::#ident::Rule) -> Self {
                         Self::#ident(rule)
                     }
                 }
diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 8139d43..73491fb 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -612,7 +612,8 @@ fn process_rules<'g>(
                 None
             }
             Import::File(name, module) => {
-                let mut child_mod_sys = ModuleSystem::new(global.clone());
+                let mut child_mod_sys =
+                    ModuleSystem::new(global.clone(), config.rules_mod.as_deref());
                 new_prefix.push(name.clone());
                 let module = (
                     format_ident!("{name}"),
@@ -832,7 +833,7 @@ fn generate_typed_pair_from_rule<'g>(
     global: Rc<ModuleNode<'g>>,
     tracker: &mut Tracker<'g>,
 ) -> TokenStream {
-    let mut mod_sys = ModuleSystem::new(global.clone());
+    let mut mod_sys = ModuleSystem::new(global.clone(), config.rules_mod.as_deref());
     let output = process_rules(
         module,
         &mut mod_sys,
diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 696627f..5d79cc9 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -1,7 +1,7 @@
 use super::{
     generator::{Intermediate, ProcessedPathArgs, RuleRef},
     getter::GetterByName,
-    output::generics,
+    output::{generics, types_mod},
 };
 use pest3_core::unicode::unicode_property_names;
 use pest3_meta::parser::{ParseRule, Range};
@@ -63,12 +63,13 @@ impl RuleGenerics {
         rule_ref: &RuleRef<'g>,
         args: Option<&ProcessedPathArgs<'g>>,
         root: &TokenStream,
+        rules_mod: &TokenStream,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let generics = generics();
         let name = format_ident!("r#{}", name_str);
         let current = rule_ref.path[0..rule_ref.path.len() - 1].iter().map(|sec| {
             let sec = format_ident!("{}", sec);
-            quote! {#sec::rules::}
+            quote! {#sec::#rules_mod::}
         });
         let res = match self {
             Self::Rule { argc } => match (argc, args) {
@@ -172,6 +173,7 @@ impl<'g> ModuleNode<'g> {
         node: &'g str,
         rule_ref: &RuleRef<'g>,
         args: &Option<ProcessedPathArgs<'g>>,
+        rules_mod: &TokenStream,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let res = match self {
             Self::Collection(_map) => Err(ModuleError::CollectionCannotBeCalled(rule_ref.clone()))?,
@@ -186,7 +188,9 @@ impl<'g> ModuleNode<'g> {
                 }
                 f(root)
             }
-            Self::Generics(generics) => generics.call(node, rule_ref, args.as_ref(), root)?,
+            Self::Generics(generics) => {
+                generics.call(node, rule_ref, args.as_ref(), root, rules_mod)?
+            }
         };
         Ok(res)
     }
@@ -237,6 +241,8 @@ impl<'g> ModuleNode<'g> {
 pub(crate) struct ModuleSystem<'g> {
     root: ModuleNode<'g>,
     pest: Rc<ModuleNode<'g>>,
+    /// Name of the generated modules that contain the rules.
+    rules_mod: TokenStream,
 }
 
 impl<'g> ModuleSystem<'g> {
@@ -337,10 +343,15 @@ impl<'g> ModuleSystem<'g> {
         )]));
         root.into()
     }
-    pub fn new(pest: Rc<ModuleNode<'g>>) -> Self {
+    pub fn new(pest: Rc<ModuleNode<'g>>, rules_mod: Option<&str>) -> Self {
         let root = ModuleNode::Collection(Default::default());
         // FIXME: make "pest" paths to refer to pest3 crate for the moment
-        Self { root, pest }
+        let rules_mod = types_mod(rules_mod);
+        Self {
+            root,
+            pest,
+            rules_mod,
+        }
     }
     pub fn insert(&mut self, node: ModuleNode<'g>, name: &'g str) -> Result<(), ModuleError<'g>> {
         self.root.alias(node.into(), name)
@@ -367,6 +378,7 @@ impl<'g> ModuleSystem<'g> {
             rule_ref.path.last().ok_or(ModuleError::EmptyPath)?,
             rule_ref,
             &rule_ref.args,
+            &self.rules_mod,
         )?;
         Ok(res)
     }
diff --git a/generator/src/typed/output.rs b/generator/src/typed/output.rs
index 27d16d9..1289194 100644
--- a/generator/src/typed/output.rs
+++ b/generator/src/typed/output.rs
@@ -206,7 +206,7 @@ impl<'g> Output<'g> {
         modules: Vec<(Ident, Self)>,
         rules_mod: Option<String>,
     ) -> Self {
-        let rule_enum = generate_rule_enum(module);
+        let rule_enum = generate_rule_enum(module, &types_mod(rules_mod.as_deref()));
         Self {
             content: Vec::new(),
             optional_trivia: None,
-- 
2.43.0


From 3ecc2ab130b59ce9aaf7ed8cfbeda25621f0f836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:05 +0000
Subject: [PATCH 12/23] fix: report errors about imports instead of panicking

---
 meta/src/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 9201ae2..8b9fb7a 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -340,7 +340,12 @@ fn _parse<P: AsRef<Path>>(
                 };
                 let (mod_path, args) = parse_path_raw(path_pair, &span_path, &PrattParser::new())?;
                 if args.is_some() {
-                    todo!("import module node with arguments.")
+                    return Err(Error::new_from_span(
+                        ErrorVariant::CustomError {
+                            message: "an imported module cannot have arguments".to_string(),
+                        },
+                        span_path2,
+                    ));
                 }
                 let (mut fs_path, mut alias) = (None, None);
                 for pair in pairs {
@@ -386,7 +391,7 @@ fn _parse<P: AsRef<Path>>(
                                     &path,
                                     cache,
                                 )
-                                .unwrap_or_else(|err| panic!("{}", err));
+                                .map_err(|err| err.with_path(&path.to_string_lossy()))?;
                                 cache.insert(path, module.clone());
                                 dependencies.extend(module.dependencies.iter().cloned());
                                 module
-- 
2.43.0


From a13108a72365c9c66cba065075f59574c707a38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:06 +0000
Subject: [PATCH 13/23] fix: report cyclic imports instead of overflowing the
 stack

---
 meta/src/parser.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 8b9fb7a..34764fb 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -316,6 +316,7 @@ fn _parse<P: AsRef<Path>>(
     input: &str,
     root: &P,
     cache: &mut HashMap<PathBuf, Arc<GrammarModule>>,
+    importing: &mut Vec<PathBuf>,
 ) -> Result<Arc<GrammarModule>, Error<Rule>> {
     let mut res = GrammarModule::default();
     let GrammarModule {
@@ -377,6 +378,17 @@ fn _parse<P: AsRef<Path>>(
                             Some(module) => module.clone(),
                             None => {
                                 dependencies.insert(path.clone());
+                                // Several paths may lead to the same file.
+                                let file = path.canonicalize().unwrap_or_else(|_| path.clone());
+                                if importing.contains(&file) {
+                                    return Err(Error::new_from_span(
+                                        ErrorVariant::CustomError {
+                                            message: format!("cyclic import of {path:?}"),
+                                        },
+                                        span_path2,
+                                    ));
+                                }
+                                importing.push(file);
                                 let module = _parse(
                                     &read_to_string(&path).map_err(|err| {
                                         Error::new_from_span(
@@ -390,8 +402,10 @@ fn _parse<P: AsRef<Path>>(
                                     })?,
                                     &path,
                                     cache,
+                                    importing,
                                 )
                                 .map_err(|err| err.with_path(&path.to_string_lossy()))?;
+                                importing.pop();
                                 cache.insert(path, module.clone());
                                 dependencies.extend(module.dependencies.iter().cloned());
                                 module
@@ -460,7 +474,7 @@ impl FromIterator<Arc<GrammarModule>> for GrammarModule {
 pub fn parse<P: AsRef<Path>>(input: &str, root: &P) -> Result<Arc<GrammarModule>, Error<Rule>> {
     let mut cache = Default::default();
 
-    _parse(input, root, &mut cache)
+    _parse(input, root, &mut cache, &mut Vec::new())
 }
 
 fn parse_rule(rule: Pair<'_, Rule>, path: PathBuf) -> Result<ParseRule, Error<Rule>> {
-- 
2.43.0


From 089aad00134e7a21bba487897d9e4839ce25e4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 14/23] fix: arguments given to a parameter are an error
 instead of being dropped

---
 generator/src/typed/generator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 73491fb..2770bea 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -371,6 +371,12 @@ fn process_expr<'g>(
         }
         ParseExpr::Path(prefix, args) => {
             if prefix.len() == 1 && rule_config.grammar.args.contains(&prefix[0]) {
+                if args.is_some() {
+                    panic!(
+                        "Parameter `{}` of rule `{}` does not take arguments: `{}`.",
+                        prefix[0], rule_config.grammar.name, expr,
+                    );
+                }
                 let ident = format_ident!("r#{}", prefix[0]);
                 let typename = quote! {#ident};
                 let getter = GetterByName::from_generics_arg(&prefix[0]);
-- 
2.43.0


From 07d30385ebb3b083746eb226b2d7ea6a06dc1b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 15/23] fix: expand only the silent rules of the same grammar
 in place

A call of an imported rule was expanded to whichever silent rule of that
name was found first, and what it mentions was looked up in the importing
grammar.
---
 generator/src/typed/generator.rs | 68 +++++++++++---------------------
 1 file changed, 24 insertions(+), 44 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 2770bea..594ad84 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -853,31 +853,17 @@ fn generate_typed_pair_from_rule<'g>(
     quote! {#output}
 }
 
-fn collect_silent_rules_with_args<'a>(
-    path: Option<&'a str>,
-    module: &'a GrammarModule,
-) -> BTreeMap<Option<&'a str>, BTreeMap<&'a str, &'a ParseRule>> {
-    let mut result = BTreeMap::new();
-    result.insert(
-        path,
-        module
-            .rules
-            .iter()
-            .filter(|rule| rule.silent && !rule.args.is_empty())
-            .map(|rule| (rule.name.as_str(), rule))
-            .collect(),
-    );
-    module.imports.iter().for_each(|import| {
-        if let Import::File(path, module) = import {
-            result.extend(collect_silent_rules_with_args(Some(path), module));
-        }
-    });
-
-    result
+fn collect_silent_rules_with_args(module: &GrammarModule) -> BTreeMap<&str, &ParseRule> {
+    module
+        .rules
+        .iter()
+        .filter(|rule| rule.silent && !rule.args.is_empty())
+        .map(|rule| (rule.name.as_str(), rule))
+        .collect()
 }
 
 fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
-    let silent_rules = collect_silent_rules_with_args(None, &module);
+    let silent_rules = collect_silent_rules_with_args(&module);
     let mut new_module = module.clone();
     new_module
         .rules
@@ -891,28 +877,22 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                 if let Some(node) = nodes.last_mut() {
                     let mut replace_expr = None;
                     if let ParseExpr::Path(path, args) = &node.expr {
-                        if let Some(PathArgs::Call(args)) = args {
-                            if let Some(rule_name) = path.last() {
-                                if let Some(silent_rule) = silent_rules
-                                    .iter()
-                                    .find_map(|(mod_path, rules)| rules.get(rule_name.as_str()))
-                                {
-                                    assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
-                                    let mut new_expr = silent_rule.node.expr.clone();
-                                    // Rename the parameters first: an argument may mention
-                                    // the name of another parameter.
-                                    for (i, silent_arg_name) in silent_rule.args.iter().enumerate()
-                                    {
-                                        let param = ParseExpr::Path(vec![format!("#{i}")], None);
-                                        replaced |=
-                                            new_expr.replace(silent_arg_name.as_str(), &param);
-                                    }
-                                    for (i, arg) in args.iter().enumerate() {
-                                        new_expr.replace(&format!("#{i}"), &arg.expr);
-                                    }
-                                    if replaced {
-                                        replace_expr = Some(new_expr);
-                                    }
+                        // Silent rules of imported modules stay in their own namespaces.
+                        if let (Some(PathArgs::Call(args)), [rule_name]) = (args, &path[..]) {
+                            if let Some(silent_rule) = silent_rules.get(rule_name.as_str()) {
+                                assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
+                                let mut new_expr = silent_rule.node.expr.clone();
+                                // Rename the parameters first: an argument may mention
+                                // the name of another parameter.
+                                for (i, silent_arg_name) in silent_rule.args.iter().enumerate() {
+                                    let param = ParseExpr::Path(vec![format!("#{i}")], None);
+                                    replaced |= new_expr.replace(silent_arg_name.as_str(), &param);
+                                }
+                                for (i, arg) in args.iter().enumerate() {
+                                    new_expr.replace(&format!("#{i}"), &arg.expr);
+                                }
+                                if replaced {
+                                    replace_expr = Some(new_expr);
                                 }
                             }
                         }
-- 
2.43.0


From 5f3420119ae4fdde7ab085eb2875965335acc9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 16/23] fix: report recursive silent rules with arguments
 instead of hanging

---
 generator/src/typed/generator.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 594ad84..cfa381b 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -862,6 +862,26 @@ fn collect_silent_rules_with_args(module: &GrammarModule) -> BTreeMap<&str, &Par
         .collect()
 }
 
+/// Whether expanding a silent rule with arguments would never end.
+fn expands_itself(name: &str, silent_rules: &BTreeMap<&str, &ParseRule>) -> bool {
+    let mut seen = BTreeSet::new();
+    let mut todo = vec![name];
+    while let Some(rule) = todo.pop().and_then(|name| silent_rules.get(name)) {
+        let (_, _, used) = collect_used_rule_without_trivia(rule);
+        for used in used {
+            if silent_rules.contains_key(used) && !rule.args.iter().any(|arg| arg == used) {
+                if used == name {
+                    return true;
+                }
+                if seen.insert(used) {
+                    todo.push(used);
+                }
+            }
+        }
+    }
+    false
+}
+
 fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
     let silent_rules = collect_silent_rules_with_args(&module);
     let mut new_module = module.clone();
@@ -881,6 +901,11 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                         if let (Some(PathArgs::Call(args)), [rule_name]) = (args, &path[..]) {
                             if let Some(silent_rule) = silent_rules.get(rule_name.as_str()) {
                                 assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
+                                assert!(
+                                    !expands_itself(rule_name, &silent_rules),
+                                    "Silent rule `{}` has arguments and is recursive, so it cannot be inlined.",
+                                    silent_rule.name
+                                );
                                 let mut new_expr = silent_rule.node.expr.clone();
                                 // Rename the parameters first: an argument may mention
                                 // the name of another parameter.
-- 
2.43.0


From 8a2442a1c114fa50104a137773e37c64de167dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 17/23] fix: imported modules may be named after Rust keywords

---
 generator/src/typed/generator.rs | 4 ++--
 generator/src/typed/module.rs    | 4 ++--
 generator/src/typed/output.rs    | 5 +++++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index cfa381b..9ee5743 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -3,7 +3,7 @@ use super::{
     config::Config,
     getter::GetterByName,
     module::{ModuleNode, ModuleSystem},
-    output::{generics, Output, Tracker},
+    output::{generics, module_id, Output, Tracker},
 };
 use crate::{
     common::generate_include,
@@ -622,7 +622,7 @@ fn process_rules<'g>(
                     ModuleSystem::new(global.clone(), config.rules_mod.as_deref());
                 new_prefix.push(name.clone());
                 let module = (
-                    format_ident!("{name}"),
+                    module_id(name),
                     process_rules(
                         module,
                         &mut child_mod_sys,
diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 5d79cc9..b7eadc3 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -1,7 +1,7 @@
 use super::{
     generator::{Intermediate, ProcessedPathArgs, RuleRef},
     getter::GetterByName,
-    output::{generics, types_mod},
+    output::{generics, module_id, types_mod},
 };
 use pest3_core::unicode::unicode_property_names;
 use pest3_meta::parser::{ParseRule, Range};
@@ -68,7 +68,7 @@ impl RuleGenerics {
         let generics = generics();
         let name = format_ident!("r#{}", name_str);
         let current = rule_ref.path[0..rule_ref.path.len() - 1].iter().map(|sec| {
-            let sec = format_ident!("{}", sec);
+            let sec = module_id(sec);
             quote! {#sec::#rules_mod::}
         });
         let res = match self {
diff --git a/generator/src/typed/output.rs b/generator/src/typed/output.rs
index 1289194..8f54611 100644
--- a/generator/src/typed/output.rs
+++ b/generator/src/typed/output.rs
@@ -23,6 +23,11 @@ pub fn types_mod(rules_mod: Option<&str>) -> TokenStream {
     quote! {#name}
 }
 
+/// Returns the identifier of an imported module, which may be named after a keyword.
+pub fn module_id(name: &str) -> Ident {
+    syn::parse_str(name).unwrap_or_else(|_| format_ident!("r#{}", name))
+}
+
 pub fn constant_wrappers() -> TokenStream {
     quote! {wrapper}
 }
-- 
2.43.0


From 8a29f0081b78c15c1fcfbf81a64b9854bcc7c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 18/23] fix: Span::get with a bound at the largest offset is
 out of range instead of overflowing

---
 core/src/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/span.rs b/core/src/span.rs
index 31ac3aa..dd79d0d 100644
--- a/core/src/span.rs
+++ b/core/src/span.rs
@@ -85,11 +85,11 @@ impl<'i> Span<'i> {
     pub fn get(&self, range: impl RangeBounds<usize>) -> Option<Span<'i>> {
         let start = match range.start_bound() {
             Bound::Included(offset) => *offset,
-            Bound::Excluded(offset) => *offset + 1,
+            Bound::Excluded(offset) => offset.checked_add(1)?,
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(offset) => *offset + 1,
+            Bound::Included(offset) => offset.checked_add(1)?,
             Bound::Excluded(offset) => *offset,
             Bound::Unbounded => self.as_str().len(),
         };
-- 
2.43.0


From 3cad9289264893576c65d27b2695a0f5083333da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:06 +0000
Subject: [PATCH 19/23] fix: a pushed rule is listed by its own pair

---
 core/src/typed/template/mod.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/core/src/typed/template/mod.rs b/core/src/typed/template/mod.rs
index fd9e713..fda3a74 100644
--- a/core/src/typed/template/mod.rs
+++ b/core/src/typed/template/mod.rs
@@ -959,9 +959,6 @@ impl<R: RuleType, T: PairContainer<R>> PairContainer<R> for push<T> {
     fn for_each_child_pair(&self, f: &mut impl FnMut(crate::token::Pair<R>)) {
         self.content.for_self_or_for_each_child_pair(f)
     }
-    fn vec_children_pairs(&self) -> Vec<crate::token::Pair<R>> {
-        self.content.vec_children_pairs()
-    }
 }
 
 /// Match `[START..END]` in top-to-bottom order of the stack.
-- 
2.43.0


From 292d4620dcc6756324f3d31c69937c895e5f9466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:06 +0000
Subject: [PATCH 20/23] fix: expand silent rules that use none of their
 parameters

---
 generator/src/typed/generator.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 9ee5743..70fe527 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -911,14 +911,13 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                                 // the name of another parameter.
                                 for (i, silent_arg_name) in silent_rule.args.iter().enumerate() {
                                     let param = ParseExpr::Path(vec![format!("#{i}")], None);
-                                    replaced |= new_expr.replace(silent_arg_name.as_str(), &param);
+                                    new_expr.replace(silent_arg_name.as_str(), &param);
                                 }
                                 for (i, arg) in args.iter().enumerate() {
                                     new_expr.replace(&format!("#{i}"), &arg.expr);
                                 }
-                                if replaced {
-                                    replace_expr = Some(new_expr);
-                                }
+                                replaced = true;
+                                replace_expr = Some(new_expr);
                             }
                         }
                     }
-- 
2.43.0


From 5843179547ab703fed5026c01424d3a37dd4e6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:54 +0000
Subject: [PATCH 21/23] fix: resolve the names in silent rules with arguments
 and in their arguments

---
 generator/src/typed/generator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 70fe527..683e358 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -977,6 +977,14 @@ fn generate_typed(
     } else {
         quote!()
     };
+    // Resolve every name once before some of them vanish by inlining:
+    // those in silent rules with arguments, and in arguments that are not used.
+    generate_typed_pair_from_rule(
+        &module,
+        config,
+        ModuleSystem::make_global(),
+        &mut Tracker::new(),
+    );
     let mut tracker = Tracker::new();
     let global = ModuleSystem::make_global();
     let module = inline_silent_rules_with_args(module);
-- 
2.43.0


From e218dd4a41eaa899e8f9b15cecff360c6588bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:54 +0000
Subject: [PATCH 22/23] fix: report trivia and parameters that are defined
 twice

---
 generator/src/typed/generator.rs | 8 ++++++++
 generator/src/typed/output.rs    | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 683e358..35462d4 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -565,6 +565,14 @@ fn process_rule<'g: 'f, 'f>(
     tracker: &mut Tracker<'g>,
     res: &mut Output<'g>,
 ) {
+    for (i, arg) in rule.args.iter().enumerate() {
+        assert!(
+            !rule.args[..i].contains(arg),
+            "Parameter `{}` of rule `{}` is already defined.",
+            arg,
+            rule.name,
+        );
+    }
     let rule_config = RuleConfig::from(rule);
     let inter = process_expr(
         &rule.node.expr,
diff --git a/generator/src/typed/output.rs b/generator/src/typed/output.rs
index 8f54611..73d4c79 100644
--- a/generator/src/typed/output.rs
+++ b/generator/src/typed/output.rs
@@ -227,9 +227,17 @@ impl<'g> Output<'g> {
         self.content.push(tokens);
     }
     pub fn add_option_trivia(&mut self, tokens: TokenStream) {
+        assert!(
+            self.optional_trivia.is_none(),
+            "Optional trivia `~` is already defined."
+        );
         self.optional_trivia = Some(tokens);
     }
     pub fn add_mandatory_trivia(&mut self, tokens: TokenStream) {
+        assert!(
+            self.mandatory_trivia.is_none(),
+            "Mandatory trivia `^` is already defined."
+        );
         self.mandatory_trivia = Some(tokens);
     }
     /// Collect to final [TokenStream].
-- 
2.43.0


From 2377bb5ec648811bdae52115d15c611178910b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:54 +0000
Subject: [PATCH 23/23] fix: report parameters of trivia, which is never given
 arguments

---
 generator/src/typed/generator.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 35462d4..e57eace 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -583,6 +583,13 @@ fn process_rule<'g: 'f, 'f>(
         mod_sys,
         root,
     );
+    if matches!(rule.name.as_str(), "~" | "^") {
+        assert!(
+            rule.args.is_empty(),
+            "Trivia `{}` cannot have parameters.",
+            rule.name,
+        );
+    }
     match rule.name.as_str() {
         "~" => res.add_option_trivia(inter.typename),
         "^" => res.add_mandatory_trivia(inter.typename),
-- 
2.43.0

