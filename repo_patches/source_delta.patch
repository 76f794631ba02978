From 0bfd0ec3ec6922d23f5d3e9b2676a6796725bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 01/21] fix: a push node lists the same pairs through every
 container method

push<T> forwarded vec_children_pairs to its content, so for a rule inside a
push it returned the rule's children and dropped the rule's own pair, unlike
for_each_child_pair and every other container.
---
 core/src/typed/template/mod.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/core/src/typed/template/mod.rs b/core/src/typed/template/mod.rs
index fd9e713..fda3a74 100644
--- a/core/src/typed/template/mod.rs
+++ b/core/src/typed/template/mod.rs
@@ -959,9 +959,6 @@ impl<R: RuleType, T: PairContainer<R>> PairContainer<R> for push<T> {
     fn for_each_child_pair(&self, f: &mut impl FnMut(crate::token::Pair<R>)) {
         self.content.for_self_or_for_each_child_pair(f)
     }
-    fn vec_children_pairs(&self) -> Vec<crate::token::Pair<R>> {
-        self.content.vec_children_pairs()
-    }
 }
 
 /// Match `[START..END]` in top-to-bottom order of the stack.
-- 
2.43.0


From a8086839cdb664ad55674ae391080d9b9e1a89ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:53 +0000
Subject: [PATCH 02/21] fix: raw string literals with pounds keep their content

---
 meta/src/parser.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 5afb4ad..1aee15d 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -633,11 +633,12 @@ fn parse_string(pair: Pair<'_, Rule>, span: &Span) -> Result<ParseNode, Error<Ru
 
 fn parse_raw_string(pair: Pair<'_, Rule>, span: &Span) -> ParseNode {
     let span = span.from_pest(pair.as_span());
-    let mut pairs = pair.into_inner();
-
-    pairs.next().unwrap(); // quote
-
-    let content = pairs.next().unwrap().as_str();
+    // Pounds and quotes surround the content.
+    let content = pair
+        .into_inner()
+        .find(|pair| pair.as_rule() == Rule::inner_raw_str)
+        .unwrap()
+        .as_str();
     let expr = ParseExpr::Str(content.to_owned());
 
     ParseNode { expr, span }
-- 
2.43.0


From 3da5cd27770c44a60070a1f42d273aee3306b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:29 +0000
Subject: [PATCH 03/21] fix: an error in an imported grammar is returned, not a
 panic

---
 meta/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 1aee15d..4b47eee 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -382,7 +382,11 @@ fn _parse<P: AsRef<Path>>(
                                     &path,
                                     cache,
                                 )
-                                .unwrap_or_else(|err| panic!("{}", err));
+                                .map_err(|err| match err.path() {
+                                    // Already located in a file further down.
+                                    Some(_) => err,
+                                    None => err.with_path(&path.to_string_lossy()),
+                                })?;
                                 cache.insert(path, module.clone());
                                 dependencies.extend(module.dependencies.iter().cloned());
                                 module
-- 
2.43.0


From 9d9bb0b84d4af25ec49ea526fc32dba08eb7d1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 04/21] fix: a module lists imports it shares with another
 module as dependencies

---
 meta/src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 4b47eee..05f009d 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -367,7 +367,6 @@ fn _parse<P: AsRef<Path>>(
                         let module = match cache.get(&path) {
                             Some(module) => module.clone(),
                             None => {
-                                dependencies.insert(path.clone());
                                 let module = _parse(
                                     &read_to_string(&path).map_err(|err| {
                                         Error::new_from_span(
@@ -387,11 +386,12 @@ fn _parse<P: AsRef<Path>>(
                                     Some(_) => err,
                                     None => err.with_path(&path.to_string_lossy()),
                                 })?;
-                                cache.insert(path, module.clone());
-                                dependencies.extend(module.dependencies.iter().cloned());
+                                cache.insert(path.clone(), module.clone());
                                 module
                             }
                         };
+                        dependencies.insert(path);
+                        dependencies.extend(module.dependencies.iter().cloned());
                         Import::File(alias.to_owned(), module)
                     };
                     imports.push(import);
-- 
2.43.0


From 493f49972d61444f0ab22f169b3b24f5cc7ca923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:04 +0000
Subject: [PATCH 05/21] fix: an imported file is loaded once however its path
 is spelled

---
 meta/src/parser.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 05f009d..811b745 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -364,20 +364,21 @@ fn _parse<P: AsRef<Path>>(
                     let path = fs_path;
 
                     let import = {
-                        let module = match cache.get(&path) {
+                        let cannot_read = |err| {
+                            Error::new_from_span(
+                                ErrorVariant::CustomError {
+                                    message: format!("cannot read from {path:?} due to: {err}"),
+                                },
+                                span_path2,
+                            )
+                        };
+                        // The same file can be reached through different paths.
+                        let key = path.canonicalize().map_err(cannot_read)?;
+                        let module = match cache.get(&key) {
                             Some(module) => module.clone(),
                             None => {
                                 let module = _parse(
-                                    &read_to_string(&path).map_err(|err| {
-                                        Error::new_from_span(
-                                            ErrorVariant::CustomError {
-                                                message: format!(
-                                                    "cannot read from {path:?} due to: {err}"
-                                                ),
-                                            },
-                                            span_path2,
-                                        )
-                                    })?,
+                                    &read_to_string(&path).map_err(cannot_read)?,
                                     &path,
                                     cache,
                                 )
@@ -386,7 +387,7 @@ fn _parse<P: AsRef<Path>>(
                                     Some(_) => err,
                                     None => err.with_path(&path.to_string_lossy()),
                                 })?;
-                                cache.insert(path.clone(), module.clone());
+                                cache.insert(key, module.clone());
                                 module
                             }
                         };
-- 
2.43.0


From 6efbaf79fb6d4b4a3e9f0a476a0076b9f0bb8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:08 +0000
Subject: [PATCH 06/21] fix: a cyclic import is an error instead of endless
 recursion

---
 meta/src/parser.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 811b745..fb7dd14 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -311,7 +311,7 @@ pub enum Import {
 fn _parse<P: AsRef<Path>>(
     input: &str,
     root: &P,
-    cache: &mut HashMap<PathBuf, Arc<GrammarModule>>,
+    cache: &mut HashMap<PathBuf, Option<Arc<GrammarModule>>>,
 ) -> Result<Arc<GrammarModule>, Error<Rule>> {
     let mut res = GrammarModule::default();
     let GrammarModule {
@@ -375,8 +375,17 @@ fn _parse<P: AsRef<Path>>(
                         // The same file can be reached through different paths.
                         let key = path.canonicalize().map_err(cannot_read)?;
                         let module = match cache.get(&key) {
-                            Some(module) => module.clone(),
+                            Some(Some(module)) => module.clone(),
+                            Some(None) => {
+                                return Err(Error::new_from_span(
+                                    ErrorVariant::CustomError {
+                                        message: format!("cyclic import of {path:?}"),
+                                    },
+                                    span_path2,
+                                ))
+                            }
                             None => {
+                                cache.insert(key.clone(), None);
                                 let module = _parse(
                                     &read_to_string(&path).map_err(cannot_read)?,
                                     &path,
@@ -387,7 +396,7 @@ fn _parse<P: AsRef<Path>>(
                                     Some(_) => err,
                                     None => err.with_path(&path.to_string_lossy()),
                                 })?;
-                                cache.insert(key, module.clone());
+                                cache.insert(key, Some(module.clone()));
                                 module
                             }
                         };
-- 
2.43.0


From 0484991fe7724111b796709f7e8f43c93378fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 07/21] fix: a double quote is a character of a range like any
 other

---
 meta/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index fb7dd14..b32747d 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -893,7 +893,8 @@ fn parse_node(
 }
 
 fn string_content(pair: &Pair<'_, Rule>) -> Result<String, Error<Rule>> {
-    let string = unescape(pair.as_str()).ok_or(Error::new_from_span(
+    let string = pair.as_str();
+    let string = unescape(&string[1..string.len() - 1]).ok_or(Error::new_from_span(
         ErrorVariant::CustomError {
             message: "invalid string literal".to_string(),
         },
@@ -960,7 +961,6 @@ fn unescape(string: &str) -> Option<String> {
                 }
                 _ => return None,
             },
-            Some('"') => (),
             Some(c) => result.push(c),
             None => return Some(result),
         };
-- 
2.43.0


From 14acb91c085c61d12e5aa39c89a2cc686f200cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:28 +0000
Subject: [PATCH 08/21] fix: arguments in an import are an error, not a panic

---
 meta/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index b32747d..87e771b 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -336,7 +336,12 @@ fn _parse<P: AsRef<Path>>(
                 };
                 let (mod_path, args) = parse_path_raw(path_pair, &span_path, &PrattParser::new())?;
                 if args.is_some() {
-                    todo!("import module node with arguments.")
+                    return Err(Error::new_from_span(
+                        ErrorVariant::CustomError {
+                            message: "an imported module takes no arguments".to_owned(),
+                        },
+                        span_path2,
+                    ));
                 }
                 let (mut fs_path, mut alias) = (None, None);
                 for pair in pairs {
-- 
2.43.0


From c60d6f8bc894e74f8930f266bcaafdf7594b6d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:27 +0000
Subject: [PATCH 09/21] fix: a root grammar that cannot be examined is an
 error, not a reason to use src/

---
 generator/src/config.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/generator/src/config.rs b/generator/src/config.rs
index 1999c9a..077e32b 100644
--- a/generator/src/config.rs
+++ b/generator/src/config.rs
@@ -60,10 +60,11 @@ pub(crate) fn collect_data(contents: Vec<GrammarSource>) -> Vec<(String, Option<
                 // reasons.
                 // TODO: This could be refactored once `std::path::absolute()` get's stabilized.
                 // https://doc.rust-lang.org/std/path/fn.absolute.html
-                let path = if Path::new(&root).join(path).exists() {
-                    Path::new(&root).join(path)
-                } else {
-                    Path::new(&root).join("src/").join(path)
+                let path = match Path::new(&root).join(path).try_exists() {
+                    Ok(true) => Path::new(&root).join(path),
+                    Ok(false) => Path::new(&root).join("src/").join(path),
+                    // Another file must not stand in for one that cannot be examined.
+                    Err(error) => panic!("error looking for {path:?}: {error}"),
                 };
 
                 let file_name = match path.file_name() {
-- 
2.43.0


From 73a9af36db84e3230f76a7da6086722f214a2419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 10/21] fix: a span of an empty input is rendered instead of
 panicking

---
 core/src/formatter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/formatter.rs b/core/src/formatter.rs
index 2d32c22..d3ddfe0 100644
--- a/core/src/formatter.rs
+++ b/core/src/formatter.rs
@@ -335,6 +335,11 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         MF: FnMut(&str, &mut Writer) -> fmt::Result,
         NF: FnMut(&str, &mut Writer) -> fmt::Result,
     {
+        if span.get_input().is_empty() {
+            // An empty input has no line to look for.
+            let line = Partition2::new(0, "", 0, 0);
+            return self.display_snippet_single_line(f, 1, line);
+        }
         let mut start = None;
         let mut end = None;
         let mut pos = 0usize;
-- 
2.43.0


From 662a122e85209b9a334ac12a560149537df7fe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 11/21] fix: an argument is replaced in every argument of a
 nested call

---
 meta/src/parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 87e771b..8850c24 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -238,9 +238,11 @@ impl ParseExpr {
                 let replaced_rhs = rhs.expr.replace(arg_name, new_expr);
                 replaced_lhs || replaced_rhs
             }
-            Self::Path(_, Some(PathArgs::Call(args))) => args
-                .iter_mut()
-                .any(|arg| arg.expr.replace(arg_name, new_expr)),
+            Self::Path(_, Some(PathArgs::Call(args))) => {
+                args.iter_mut().fold(false, |replaced, arg| {
+                    arg.expr.replace(arg_name, new_expr) || replaced
+                })
+            }
             _ => false,
         }
     }
-- 
2.43.0


From 097b3f9912dd8dc9c1a8b5e6f235b055046e88ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 12/21] fix: silent rules with arguments are inlined by path,
 wherever they are called

---
 generator/src/typed/generator.rs | 173 ++++++++++++++++++++++---------
 1 file changed, 122 insertions(+), 51 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 6d21323..80143de 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -846,74 +846,142 @@ fn generate_typed_pair_from_rule<'g>(
     quote! {#output}
 }
 
+/// Silent rules with arguments that can be inlined into the root module,
+/// by the path they have there.
 fn collect_silent_rules_with_args<'a>(
-    path: Option<&'a str>,
+    prefix: &[String],
     module: &'a GrammarModule,
-) -> BTreeMap<Option<&'a str>, BTreeMap<&'a str, &'a ParseRule>> {
+) -> BTreeMap<Vec<String>, &'a ParseRule> {
     let mut result = BTreeMap::new();
-    result.insert(
-        path,
-        module
-            .rules
-            .iter()
-            .filter(|rule| rule.silent && !rule.args.is_empty())
-            .map(|rule| (rule.name.as_str(), rule))
-            .collect(),
-    );
-    module.imports.iter().for_each(|import| {
-        if let Import::File(path, module) = import {
-            result.extend(collect_silent_rules_with_args(Some(path), module));
+    for rule in module.rules.iter() {
+        // Trivia of an imported module cannot be expressed in the root module.
+        let portable = prefix.is_empty() || {
+            let (optional, mandatory, _) = collect_used_rule_without_trivia(rule);
+            !optional && !mandatory
+        };
+        if rule.silent && !rule.args.is_empty() && portable {
+            let mut path = prefix.to_vec();
+            path.push(rule.name.clone());
+            result.insert(path, rule);
+        }
+    }
+    for import in module.imports.iter() {
+        if let Import::File(name, module) = import {
+            let mut prefix = prefix.to_vec();
+            prefix.push(name.clone());
+            result.extend(collect_silent_rules_with_args(&prefix, module));
+        }
+    }
+    result
+}
+
+/// Call `f` on every path in `expr`, including arguments of calls.
+fn for_each_path(expr: &mut ParseExpr, f: &mut impl FnMut(&mut Vec<String>, bool)) {
+    match expr {
+        ParseExpr::Str(_) | ParseExpr::Insens(_) | ParseExpr::Range(_, _) => (),
+        ParseExpr::Path(path, args) => {
+            f(path, args.is_some());
+            if let Some(PathArgs::Call(args)) = args {
+                args.iter_mut()
+                    .for_each(|arg| for_each_path(&mut arg.expr, f));
+            }
+        }
+        ParseExpr::Seq(left, right, _) | ParseExpr::Choice(left, right) => {
+            for_each_path(&mut left.expr, f);
+            for_each_path(&mut right.expr, f);
+        }
+        ParseExpr::PosPred(inner)
+        | ParseExpr::NegPred(inner)
+        | ParseExpr::Opt(inner)
+        | ParseExpr::Rep(inner)
+        | ParseExpr::RepOnce(inner)
+        | ParseExpr::RepRange(inner, _)
+        | ParseExpr::Separated(inner, _) => for_each_path(&mut inner.expr, f),
+    }
+}
+
+/// Body of a silent rule as seen from the root module, where the rule has the given path.
+fn body_in_root_module(path: &[String], rule: &ParseRule) -> ParseExpr {
+    let prefix = &path[..path.len() - 1];
+    let mut body = rule.node.expr.clone();
+    for_each_path(&mut body, &mut |path, _| {
+        let is_arg = path.len() == 1 && rule.args.contains(&path[0]);
+        if !is_arg && path[0] != "pest" {
+            path.splice(0..0, prefix.iter().cloned());
         }
     });
+    body
+}
 
-    result
+/// Rules whose bodies call the rules themselves, directly or through others.
+fn recursive_rules(
+    rules: &BTreeMap<Vec<String>, (&ParseRule, ParseExpr)>,
+) -> BTreeSet<Vec<String>> {
+    let calls = |path: &Vec<String>| {
+        let mut calls = BTreeSet::new();
+        if let Some((_, body)) = rules.get(path) {
+            for_each_path(&mut body.clone(), &mut |path, called| {
+                if called && rules.contains_key(path) {
+                    calls.insert(path.clone());
+                }
+            });
+        }
+        calls
+    };
+    rules
+        .keys()
+        .filter(|rule| {
+            let mut reached = calls(rule);
+            let mut pending: Vec<_> = reached.iter().cloned().collect();
+            while let Some(path) = pending.pop() {
+                for path in calls(&path) {
+                    if reached.insert(path.clone()) {
+                        pending.push(path);
+                    }
+                }
+            }
+            reached.contains(*rule)
+        })
+        .cloned()
+        .collect()
 }
 
 fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
-    let silent_rules = collect_silent_rules_with_args(None, &module);
+    let mut silent_rules: BTreeMap<Vec<String>, (&ParseRule, ParseExpr)> =
+        collect_silent_rules_with_args(&[], &module)
+            .into_iter()
+            .map(|(path, rule)| {
+                let body = body_in_root_module(&path, rule);
+                (path, (rule, body))
+            })
+            .collect();
+    // Expansion of a recursive rule would never end, so it is left as it is.
+    for path in recursive_rules(&silent_rules) {
+        silent_rules.remove(&path);
+    }
     let mut new_module = module.clone();
     new_module
         .rules
-        .retain(|rule| !rule.silent || rule.args.is_empty());
+        .retain(|rule| !silent_rules.contains_key(std::slice::from_ref(&rule.name)));
     for rule in new_module.rules.iter_mut() {
         let mut nodes = vec![&mut rule.node];
-        while !nodes.is_empty() {
-            loop {
-                let mut replaced = false;
-
-                if let Some(node) = nodes.last_mut() {
-                    let mut replace_expr = None;
-                    if let ParseExpr::Path(path, args) = &node.expr {
-                        if let Some(PathArgs::Call(args)) = args {
-                            if let Some(rule_name) = path.last() {
-                                if let Some(silent_rule) = silent_rules
-                                    .iter()
-                                    .find_map(|(mod_path, rules)| rules.get(rule_name.as_str()))
-                                {
-                                    assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
-                                    let mut new_expr = silent_rule.node.expr.clone();
-                                    for (arg, silent_arg_name) in
-                                        args.iter().zip(silent_rule.args.iter())
-                                    {
-                                        replaced |=
-                                            new_expr.replace(silent_arg_name.as_str(), &arg.expr);
-                                    }
-                                    if replaced {
-                                        replace_expr = Some(new_expr);
-                                    }
-                                }
-                            }
-                        }
-                    }
-                    if let Some(expr) = replace_expr {
-                        node.expr = expr;
-                    }
-                }
-                if !replaced {
+        while let Some(node) = nodes.pop() {
+            while let ParseExpr::Path(path, Some(PathArgs::Call(args))) = &node.expr {
+                let Some((silent_rule, body)) = silent_rules.get(path) else {
                     break;
+                };
+                assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
+                // Arguments are replaced simultaneously: no argument is looked for in another one.
+                let placeholder = |i| format!("#{i}");
+                let mut new_expr = body.clone();
+                for (i, name) in silent_rule.args.iter().enumerate() {
+                    new_expr.replace(name, &ParseExpr::Path(vec![placeholder(i)], None));
                 }
+                for (i, arg) in args.iter().enumerate() {
+                    new_expr.replace(&placeholder(i), &arg.expr);
+                }
+                node.expr = new_expr;
             }
-            let node = nodes.pop().unwrap();
             match &mut node.expr {
                 ParseExpr::Seq(left, right, _) => {
                     nodes.push(left);
@@ -935,6 +1003,9 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                 ParseExpr::PosPred(inner) | ParseExpr::NegPred(inner) => {
                     nodes.push(inner);
                 }
+                ParseExpr::Path(_, Some(PathArgs::Call(args))) => {
+                    nodes.extend(args.iter_mut());
+                }
                 _ => {}
             }
         }
-- 
2.43.0


From b8076d6bd70bd305e6554179b76008291ee813ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 13/21] fix: an imported built-in rule can be renamed

---
 generator/src/typed/module.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 7911490..57e6cd9 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -39,6 +39,8 @@ pub enum RuleGenerics {
     /// Defined rule in current module.
     Rule { argc: usize },
     BuiltIn {
+        /// Name of its type, whatever it is called in the grammar.
+        name: &'static str,
         /// Built-in rule that accepts nothing as argument.
         ///
         /// - Whether it requires lifetime specifier.
@@ -63,7 +65,10 @@ impl RuleGenerics {
         root: &TokenStream,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let generics = generics();
-        let name = format_ident!("r#{}", name_str);
+        let name = match self {
+            Self::Rule { .. } => format_ident!("r#{}", name_str),
+            Self::BuiltIn { name, .. } => format_ident!("r#{}", name),
+        };
         let current = rule_ref.path[0..rule_ref.path.len() - 1].iter().map(|sec| {
             let sec = format_ident!("{}", sec);
             quote! {#sec::rules::}
@@ -99,6 +104,7 @@ impl RuleGenerics {
                 }
             },
             Self::BuiltIn {
+                name: _,
                 direct,
                 slice,
                 callable,
@@ -270,6 +276,7 @@ impl<'g> ModuleSystem<'g> {
                     Rc::new(
                         ModuleNode::Generics(
                             RuleGenerics::BuiltIn {
+                                name: core::stringify!($name),
                                 direct: None $( .or(Some(pest_direct! { $($direct)* })) )?,
                                 slice: None $( .or(Some(pest_slice! { $( $slice )* })) )?,
                                 callable: None $( .or(Some(pest_callable! { $( $callable )* })) )?,
-- 
2.43.0


From 55eff5426bfee9c0a426996e5a7fbc6a56e5bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 14/21] fix: the name of the module of rules applies to
 imported grammars too

---
 generator/src/common.rs          |  8 ++++----
 generator/src/typed/generator.rs |  5 +++--
 generator/src/typed/module.rs    | 10 ++++++++--
 generator/src/typed/output.rs    |  2 +-
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/generator/src/common.rs b/generator/src/common.rs
index a6abc27..fc3d4be 100644
--- a/generator/src/common.rs
+++ b/generator/src/common.rs
@@ -40,7 +40,7 @@ pub(crate) fn generate_include(name: &Ident, paths: Vec<PathBuf>) -> TokenStream
     }
 }
 
-pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
+pub(crate) fn generate_rule_enum(module: &GrammarModule, rules_mod: &TokenStream) -> TokenStream {
     let this = pest();
     let GrammarModule {
         rules,
@@ -68,7 +68,7 @@ pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
         Import::File(name, module) => {
             let ident = format_ident!("r#{}", name);
             quote! {
-                #ident(rules::#ident::Rule),
+                #ident(#rules_mod::#ident::Rule),
             }
         }
     });
@@ -77,8 +77,8 @@ pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
         Import::File(name, module) => {
             let ident = format_ident!("r#{}", name);
             quote! {
-                impl #this::typed::SuperRule<rules::#ident::Rule> for Rule {
-                    fn cvt_from(rule: rules::#ident::Rule) -> Self {
+                impl #this::typed::SuperRule<#rules_mod::#ident::Rule> for Rule {
+                    fn cvt_from(rule: #rules_mod::#ident::Rule) -> Self {
                         Self::#ident(rule)
                     }
                 }
diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 80143de..eca7e41 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -3,7 +3,7 @@ use super::{
     config::Config,
     getter::GetterByName,
     module::{ModuleNode, ModuleSystem},
-    output::{generics, Output, Tracker},
+    output::{generics, types_mod, Output, Tracker},
 };
 use crate::{
     common::generate_include,
@@ -388,7 +388,8 @@ fn process_expr<'g>(
                 )
             });
             let rule_ref = RuleRef::new(prefix, args);
-            mod_sys.resolve(&rule_ref, root).unwrap()
+            let rules_mod = types_mod(config.rules_mod.as_deref());
+            mod_sys.resolve(&rule_ref, root, &rules_mod).unwrap()
         }
         ParseExpr::PosPred(node) => {
             let inner = process_expr(
diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 57e6cd9..a52a5a2 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -63,6 +63,7 @@ impl RuleGenerics {
         rule_ref: &RuleRef<'g>,
         args: Option<&ProcessedPathArgs<'g>>,
         root: &TokenStream,
+        rules_mod: &TokenStream,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let generics = generics();
         let name = match self {
@@ -71,7 +72,7 @@ impl RuleGenerics {
         };
         let current = rule_ref.path[0..rule_ref.path.len() - 1].iter().map(|sec| {
             let sec = format_ident!("{}", sec);
-            quote! {#sec::rules::}
+            quote! {#sec::#rules_mod::}
         });
         let res = match self {
             Self::Rule { argc } => match (argc, args) {
@@ -173,6 +174,7 @@ impl<'g> ModuleNode<'g> {
         node: &'g str,
         rule_ref: &RuleRef<'g>,
         args: &Option<ProcessedPathArgs<'g>>,
+        rules_mod: &TokenStream,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let res = match self {
             Self::Collection(_map) => Err(ModuleError::CollectionCannotBeCalled(rule_ref.clone()))?,
@@ -187,7 +189,9 @@ impl<'g> ModuleNode<'g> {
                 }
                 f(root)
             }
-            Self::Generics(generics) => generics.call(node, rule_ref, args.as_ref(), root)?,
+            Self::Generics(generics) => {
+                generics.call(node, rule_ref, args.as_ref(), root, rules_mod)?
+            }
         };
         Ok(res)
     }
@@ -361,6 +365,7 @@ impl<'g> ModuleSystem<'g> {
         &self,
         rule_ref: &'_ RuleRef<'g>,
         root: &TokenStream,
+        rules_mod: &TokenStream,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let rc = self.resolve_node(&rule_ref.path)?;
         let res = rc.get(
@@ -368,6 +373,7 @@ impl<'g> ModuleSystem<'g> {
             rule_ref.path.last().ok_or(ModuleError::EmptyPath)?,
             rule_ref,
             &rule_ref.args,
+            rules_mod,
         )?;
         Ok(res)
     }
diff --git a/generator/src/typed/output.rs b/generator/src/typed/output.rs
index 27d16d9..1289194 100644
--- a/generator/src/typed/output.rs
+++ b/generator/src/typed/output.rs
@@ -206,7 +206,7 @@ impl<'g> Output<'g> {
         modules: Vec<(Ident, Self)>,
         rules_mod: Option<String>,
     ) -> Self {
-        let rule_enum = generate_rule_enum(module);
+        let rule_enum = generate_rule_enum(module, &types_mod(rules_mod.as_deref()));
         Self {
             content: Vec::new(),
             optional_trivia: None,
-- 
2.43.0


From 6d8ab4598a11b999273870e4163fe35fed7a7bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 15/21] fix: a rule can be named Option

---
 core/src/typed/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/typed/traits.rs b/core/src/typed/traits.rs
index 200ae7a..86eeb0e 100644
--- a/core/src/typed/traits.rs
+++ b/core/src/typed/traits.rs
@@ -137,7 +137,7 @@ macro_rules! full_rule_struct {
                 input: $crate::Position<'i>,
                 stack: &mut $crate::Stack<$crate::Span<'i>>,
                 tracker: &mut $crate::typed::Tracker<'i, $Rule>,
-            ) -> Option<($crate::Position<'i>, Self)> {
+            ) -> $crate::std::Option<($crate::Position<'i>, Self)> {
                 tracker.record_option_during(
                     input,
                     |tracker| {
@@ -153,7 +153,7 @@ macro_rules! full_rule_struct {
                 input: $crate::Position<'i>,
                 stack: &mut $crate::Stack<$crate::Span<'i>>,
                 tracker: &mut $crate::typed::Tracker<'i, $Rule>,
-            ) -> Option<$crate::Position<'i>> {
+            ) -> $crate::std::Option<$crate::Position<'i>> {
                 tracker.record_empty_during::<Self>(
                     input,
                     |tracker| {
-- 
2.43.0


From 5545235e54f9bc9fa616bcfc59087a35f76f5b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 16/21] fix: a rule or trivia that is defined twice is refused

---
 generator/src/typed/generator.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index eca7e41..1c02432 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -947,6 +947,23 @@ fn recursive_rules(
         .collect()
 }
 
+/// Every rule of a module, including trivia, is defined only once.
+fn check_definitions(module: &GrammarModule) {
+    let mut names = BTreeSet::new();
+    for rule in module.rules.iter() {
+        assert!(
+            names.insert(rule.name.as_str()),
+            "Rule `{}` is defined more than once.",
+            rule.name
+        );
+    }
+    for import in module.imports.iter() {
+        if let Import::File(_, module) = import {
+            check_definitions(module);
+        }
+    }
+}
+
 fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
     let mut silent_rules: BTreeMap<Vec<String>, (&ParseRule, ParseExpr)> =
         collect_silent_rules_with_args(&[], &module)
@@ -1032,6 +1049,7 @@ fn generate_typed(
     };
     let mut tracker = Tracker::new();
     let global = ModuleSystem::make_global();
+    check_definitions(&module);
     let module = inline_silent_rules_with_args(module);
     let definition = generate_typed_pair_from_rule(&module, config, global, &mut tracker);
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
-- 
2.43.0


From 6951cf2a61ad3cfb929d90c6fa26acb74fe2151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 17/21] fix: an argument of a rule that is called with
 arguments is refused

---
 generator/src/typed/generator.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 1c02432..b97f7ce 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -947,7 +947,8 @@ fn recursive_rules(
         .collect()
 }
 
-/// Every rule of a module, including trivia, is defined only once.
+/// Every rule of a module, including trivia, is defined only once,
+/// and arguments of a rule take no arguments themselves.
 fn check_definitions(module: &GrammarModule) {
     let mut names = BTreeSet::new();
     for rule in module.rules.iter() {
@@ -956,6 +957,14 @@ fn check_definitions(module: &GrammarModule) {
             "Rule `{}` is defined more than once.",
             rule.name
         );
+        for_each_path(&mut rule.node.expr.clone(), &mut |path, called| {
+            assert!(
+                !called || path.len() > 1 || !rule.args.contains(&path[0]),
+                "`{}` is an argument of rule `{}` and takes no arguments.",
+                path[0],
+                rule.name
+            );
+        });
     }
     for import in module.imports.iter() {
         if let Import::File(_, module) = import {
-- 
2.43.0


From 114a47428968f77b9af6d0289d9c41d9da0d544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 18/21] fix: a name in an inlined silent rule is not taken for
 an argument of the calling rule

---
 generator/src/typed/generator.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index b97f7ce..1d5a6e6 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -986,6 +986,18 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
     for path in recursive_rules(&silent_rules) {
         silent_rules.remove(&path);
     }
+    // A name of a rule must not be taken for an argument, or the other way round, where a rule
+    // with such an argument calls the silent rule.
+    let is_argument = |path: &[String]| {
+        path.len() == 1 && module.rules.iter().any(|rule| rule.args.contains(&path[0]))
+    };
+    silent_rules.retain(|path, (rule, body)| {
+        let mut captured = is_argument(path);
+        for_each_path(body, &mut |path, _| {
+            captured |= !rule.args.contains(&path[0]) && is_argument(path);
+        });
+        !captured
+    });
     let mut new_module = module.clone();
     new_module
         .rules
-- 
2.43.0


From 10a0a10f52274fd0ee653102ae065eab2a6c4a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 19/21] fix: a module can be named like a Rust keyword

---
 generator/src/typed/generator.rs | 4 ++--
 generator/src/typed/module.rs    | 4 ++--
 generator/src/typed/output.rs    | 5 +++++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 1d5a6e6..582a9c7 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -3,7 +3,7 @@ use super::{
     config::Config,
     getter::GetterByName,
     module::{ModuleNode, ModuleSystem},
-    output::{generics, types_mod, Output, Tracker},
+    output::{generics, module_ident, types_mod, Output, Tracker},
 };
 use crate::{
     common::generate_include,
@@ -616,7 +616,7 @@ fn process_rules<'g>(
                 let mut child_mod_sys = ModuleSystem::new(global.clone());
                 new_prefix.push(name.clone());
                 let module = (
-                    format_ident!("{name}"),
+                    module_ident(name),
                     process_rules(
                         module,
                         &mut child_mod_sys,
diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index a52a5a2..ab31871 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -1,7 +1,7 @@
 use super::{
     generator::{Intermediate, ProcessedPathArgs, RuleRef},
     getter::GetterByName,
-    output::generics,
+    output::{generics, module_ident},
 };
 use pest3_core::unicode::unicode_property_names;
 use pest3_meta::parser::{ParseRule, Range};
@@ -71,7 +71,7 @@ impl RuleGenerics {
             Self::BuiltIn { name, .. } => format_ident!("r#{}", name),
         };
         let current = rule_ref.path[0..rule_ref.path.len() - 1].iter().map(|sec| {
-            let sec = format_ident!("{}", sec);
+            let sec = module_ident(sec);
             quote! {#sec::#rules_mod::}
         });
         let res = match self {
diff --git a/generator/src/typed/output.rs b/generator/src/typed/output.rs
index 1289194..8d23a7b 100644
--- a/generator/src/typed/output.rs
+++ b/generator/src/typed/output.rs
@@ -23,6 +23,11 @@ pub fn types_mod(rules_mod: Option<&str>) -> TokenStream {
     quote! {#name}
 }
 
+/// Identifier of the module that holds the rules of an imported grammar.
+pub fn module_ident(name: &str) -> Ident {
+    syn::parse_str(name).unwrap_or_else(|_| format_ident!("r#{}", name))
+}
+
 pub fn constant_wrappers() -> TokenStream {
     quote! {wrapper}
 }
-- 
2.43.0


From 3c5120a8a447f6437c5ec83edc1f76498ba0d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 20/21] fix: reading nested parentheses takes linear time

---
 meta/src/grammar.pest | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index 7aa7598..179cdf0 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -37,8 +37,11 @@ arguments = { opening_paren ~ (identifier ~ (comma ~ identifier)* ~ comma?)? ~ c
 silent_modifier     = @{ "_" ~ !identifier }
 
 expression =  {
-    (choice_operator? ~ term ~ choice_operator)? ~
-    term ~ (infix_operator ~ term)*
+    (
+        choice_operator ~ term ~ choice_operator ~ term |
+        term ~ (choice_operator ~ term)?
+    ) ~
+    (infix_operator ~ term)*
 }
 term       =  { prefix_operator* ~ node ~ postfix_operator* }
 node       = _{ opening_paren ~ expression ~ closing_paren | terminal }
-- 
2.43.0


From 6bdfb214cf43411b5eac0d60c16ef2b99faa205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 21/21] fix: an argument called like an import hides the import
 in the rule's types

Inside such a rule, paths through the import named the generic parameter and
the generated code did not compile.
---
 generator/src/typed/generator.rs | 13 ++++++++++---
 generator/src/typed/module.rs    |  7 ++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 582a9c7..8eb5242 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -129,12 +129,18 @@ impl<'g> ProcessedPathArgs<'g> {
 pub struct RuleRef<'g> {
     pub path: Vec<&'g str>,
     pub args: Option<ProcessedPathArgs<'g>>,
+    /// An argument of the rule being generated is called like the module `path` starts with.
+    pub shadowed: bool,
 }
 impl<'g> RuleRef<'g> {
     /// Create from a [Path](ParseExpr::Path).
-    fn new(path: &'g [String], args: Option<ProcessedPathArgs<'g>>) -> Self {
+    fn new(path: &'g [String], args: Option<ProcessedPathArgs<'g>>, shadowed: bool) -> Self {
         let path = path.iter().map(String::as_str).collect::<Vec<_>>();
-        Self { path, args }
+        Self {
+            path,
+            args,
+            shadowed,
+        }
     }
 }
 impl<'g> Display for RuleRef<'g> {
@@ -387,7 +393,8 @@ fn process_expr<'g>(
                     root,
                 )
             });
-            let rule_ref = RuleRef::new(prefix, args);
+            let shadowed = rule_config.grammar.args.contains(&prefix[0]);
+            let rule_ref = RuleRef::new(prefix, args, shadowed);
             let rules_mod = types_mod(config.rules_mod.as_deref());
             mod_sys.resolve(&rule_ref, root, &rules_mod).unwrap()
         }
diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index ab31871..844d156 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -74,10 +74,11 @@ impl RuleGenerics {
             let sec = module_ident(sec);
             quote! {#sec::#rules_mod::}
         });
+        let here = rule_ref.shadowed.then(|| quote! {self::});
         let res = match self {
             Self::Rule { argc } => match (argc, args) {
                 (0, None) => {
-                    let typename = quote! { #(#current)* #name::<'i> };
+                    let typename = quote! { #here #(#current)* #name::<'i> };
                     let getter = GetterByName::from_rule(&typename, name_str);
                     Intermediate { typename, getter }
                 }
@@ -85,7 +86,7 @@ impl RuleGenerics {
                     if !args.is_empty() {
                         Err(ModuleError::UnexpectedArguments(rule_ref.clone()))?
                     } else {
-                        let typename = quote! { #(#current)* #name::<'i> };
+                        let typename = quote! { #here #(#current)* #name::<'i> };
                         let getter = GetterByName::from_rule(&typename, name_str);
                         Intermediate { typename, getter }
                     }
@@ -99,7 +100,7 @@ impl RuleGenerics {
                 )?,
                 (argc, Some(ProcessedPathArgs::Call(args))) => {
                     ModuleError::check_argc(*argc, args.len(), rule_ref)?;
-                    let typename = quote! { #(#current)* #name::<'i, #(#args, )*> };
+                    let typename = quote! { #here #(#current)* #name::<'i, #(#args, )*> };
                     let getter = GetterByName::from_rule(&typename, name_str);
                     Intermediate { typename, getter }
                 }
-- 
2.43.0

