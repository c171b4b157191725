From 8db54c9a1a468fdb8f2385782652f36508e2f04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 01/15] fix: consume_str counts matched bytes, so a mismatch
 after a non-ASCII character no longer panics

---
 chewed/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index cd98d64..54d797c 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -30,7 +30,7 @@ pub trait Parser {
             if let Some(got) = self.peek() {
                 if got == exp {
                     self.next();
-                    count += 1
+                    count += exp.len_utf8()
                 } else {
                     let mut out = String::from(&s[..count]);
                     out.push(got);
-- 
2.43.0


From 4f07451b6146e73df697ac34964ae511125bccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 02/15] fix: reading at the end of the input no longer advances
 the position

---
 chewed/src/parse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 54d797c..c5e5b4d 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -159,10 +159,11 @@ impl<I: ?Sized + Iterator<Item = char>> Parser for IterWrapper<I> {
                 }
                 Some('\x0D')
             }
-            x => {
+            Some(x) => {
                 self.pos.col += 1;
-                x
+                Some(x)
             }
+            None => None,
         }
     }
 
-- 
2.43.0


From 547cbd0671760d25620fc27ee0ee97b48795fc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 03/15] fix: take_chars_from reports the position of the
 offending character, not the one after it

---
 chewed/src/parse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index c5e5b4d..3e209de 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -53,9 +53,12 @@ pub trait Parser {
 
     fn take_chars_from(&mut self, set: &'static [char], buffer: &mut [char]) -> Result<(), TakeError> {
         for pos in buffer {
-            match self.next() {
+            match self.peek() {
                 None => return Err(TakeError::EndOfStream(self.pos())),
-                Some(c) if set.contains(&c) => *pos = c,
+                Some(c) if set.contains(&c) => {
+                    self.next();
+                    *pos = c
+                }
                 Some(c) => return Err(TakeError::BadBranch(self.pos(), c, set))
             }
         }
-- 
2.43.0


From 7afd395cf64352949cd2aac169da99249049aa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 04/15] fix: iter_strict reports the error of a failed item
 instead of a later one

---
 chewed/src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 3e209de..72abbe6 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -104,7 +104,11 @@ impl<P: Parser + ?Sized, F: FnMut(&mut P) -> Result<R, TakeError>, R> Iterator f
         if c == self.stop {
             None
         } else {
-            let res = (self.parse)(self.iter).map(Some).transpose()?;
+            let res = (self.parse)(self.iter);
+
+            if res.is_err() {
+                return Some(res);
+            }
 
             match self.iter.peek() {
                 None => Some(Err(TakeError::EndOfStream(self.iter.pos()))),
-- 
2.43.0


From 70f01889cf6d778ebf521a63f806dc3e6b6f121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 05/15] fix: a fixed point of a function with several
 parameters is rejected instead of misbinding its variables

---
 src/chomp/typed/infer.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/chomp/typed/infer.rs b/src/chomp/typed/infer.rs
index bc2baea..baf8816 100644
--- a/src/chomp/typed/infer.rs
+++ b/src/chomp/typed/infer.rs
@@ -119,12 +119,13 @@ impl Folder for TypeInfer<'_> {
 
     fn fold_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Out {
         let mut ty = Type::default();
-        let body = if let Expression::Lambda(l) = fix.inner.expr {
-            let mut body = *l.inner;
-            body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
-            body
-        } else {
-            return Err(TypeError::ExpectedLambda { span, fix });
+        let body = match fix.inner.expr {
+            Expression::Lambda(l) if l.args.len() == 1 => {
+                let mut body = *l.inner;
+                body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
+                body
+            }
+            _ => return Err(TypeError::ExpectedLambda { span, fix }),
         };
 
         loop {
-- 
2.43.0


From d939a9747eaa19e005f77fbdad9c3f209c0696a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 06/15] fix: fixed points with equal bodies but different outer
 fixed points no longer share a parser

---
 src/chomp/typed/mod.rs | 31 ++++++++++++++++++++++++++++++-
 src/lower/mod.rs       | 16 +++++++++++++---
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/chomp/typed/mod.rs b/src/chomp/typed/mod.rs
index f1f6967..be9dce0 100644
--- a/src/chomp/typed/mod.rs
+++ b/src/chomp/typed/mod.rs
@@ -1,4 +1,4 @@
-use std::hash;
+use std::{collections::BTreeSet, hash};
 
 use proc_macro2::Span;
 
@@ -220,6 +220,35 @@ pub struct TypedExpression {
     pub span: Span,
 }
 
+impl TypedExpression {
+    /// Indices of the variables that are free in the expression, relative to the context around it.
+    pub fn free_variables(&self) -> BTreeSet<usize> {
+        let mut out = BTreeSet::new();
+        self.collect_free_variables(0, &mut out);
+        out
+    }
+
+    fn collect_free_variables(&self, depth: usize, out: &mut BTreeSet<usize>) {
+        match &self.inner {
+            RawTypedExpression::Epsilon(_) | RawTypedExpression::Literal(_) => {}
+            RawTypedExpression::Cat(c) => c
+                .terms
+                .iter()
+                .for_each(|t| t.collect_free_variables(depth, out)),
+            RawTypedExpression::Alt(a) => a
+                .terms
+                .iter()
+                .for_each(|t| t.collect_free_variables(depth, out)),
+            RawTypedExpression::Fix(f) => f.inner.collect_free_variables(depth + 1, out),
+            RawTypedExpression::Variable(v) => {
+                if v.index() >= depth {
+                    out.insert(v.index() - depth);
+                }
+            }
+        }
+    }
+}
+
 impl PartialEq for TypedExpression {
     fn eq(&self, other: &Self) -> bool {
         self.inner == other.inner && self.name == other.name
diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index e74f86a..4f01c8a 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -33,7 +33,8 @@ pub struct RustBackend {
     lit_map: HashMap<String, usize>,
     cat_map: HashMap<Vec<usize>, usize>,
     alt_map: HashMap<Vec<usize>, usize>,
-    fix_map: HashMap<TypedExpression, usize>,
+    // Key is the inner expression and the fix point IDs of its free variables
+    fix_map: HashMap<(TypedExpression, Vec<usize>), usize>,
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
     can_char: BTreeSet<usize>,
@@ -379,13 +380,22 @@ impl Backend for RustBackend {
 
     fn gen_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Id {
         let inner = fix.unwrap();
+        // Variable 0 is bound by this fix point.
+        let free = inner
+            .free_variables()
+            .into_iter()
+            .filter(|&index| index > 0)
+            .map(|index| self.context[self.context.len() - index])
+            .collect();
+        let key = (inner, free);
 
-        if let Some(&id) = self.fix_map.get(&inner) {
+        if let Some(&id) = self.fix_map.get(&key) {
             return id;
         }
 
         let (id, name) = self.new_type_name("Fix", name, span);
-        self.fix_map.insert(inner.clone(), id);
+        let (inner, _) = key.clone();
+        self.fix_map.insert(key, id);
 
         self.data.push(Ty {
             name: TokenTree::from(name.clone()).into(),
-- 
2.43.0


From 9859a63efe38d809839b92488d3190bce40f3de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 07/15] fix: generated names are numbered on when a labelled
 and an unnamed item would get the same one

---
 src/lower/mod.rs | 59 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index 4f01c8a..20d30de 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BTreeSet, HashMap},
+    collections::{BTreeSet, HashMap, HashSet},
     convert::TryInto,
 };
 
@@ -37,6 +37,7 @@ pub struct RustBackend {
     fix_map: HashMap<(TypedExpression, Vec<usize>), usize>,
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
+    used_names: HashSet<Ident>,
     can_char: BTreeSet<usize>,
     context: Vec<usize>,
 }
@@ -47,15 +48,40 @@ impl RustBackend {
     fn new_type_name(&mut self, prefix: &str, name: Option<Name>, span: Span) -> (usize, Ident) {
         let id = self.data.len();
 
-        match name {
-            None => (id, format_ident!("{}{}", prefix, id + 1, span = span)),
+        let ident = match name {
+            None => {
+                let mut count = id + 1;
+                Self::unused_name(&mut self.used_names, &mut count, |count| {
+                    format_ident!("{}{}", prefix, count, span = span)
+                })
+            }
             Some(name) => {
                 let name: Ident = name.to_camel_case().into();
                 let count = self.name_map.entry(name.clone()).or_insert(0);
                 *count += 1;
-                (id, format_ident!("{}{}", name, count))
+                Self::unused_name(&mut self.used_names, count, |count| {
+                    format_ident!("{}{}", name, count)
+                })
             }
+        };
+
+        (id, ident)
+    }
+
+    // The first name that is not in use, counting up from the given number.
+    fn unused_name<F: Fn(usize) -> Ident>(
+        used: &mut HashSet<Ident>,
+        count: &mut usize,
+        make: F,
+    ) -> Ident {
+        let mut ident = make(*count);
+
+        while !used.insert(ident.clone()) {
+            *count += 1;
+            ident = make(*count);
         }
+
+        ident
     }
 
     fn recurse_exprs<I: IntoIterator<Item = TypedExpression>>(
@@ -102,15 +128,23 @@ impl RustBackend {
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
         let mut name_map = HashMap::new();
+        let mut used_names = HashSet::new();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
+                None => {
+                    let mut count = index + 1;
+                    Self::unused_name(&mut used_names, &mut count, |count| {
+                        format_ident!("{}{}", default, count, span = span)
+                    })
+                }
                 Some(name) => {
                     let name: Ident = name.to_snake_case().into();
                     let count = name_map.entry(name.clone()).or_insert(0_usize);
                     *count += 1;
-                    format_ident!("{}{}", name, count)
+                    Self::unused_name(&mut used_names, count, |count| {
+                        format_ident!("{}{}", name, count)
+                    })
                 }
             })
     }
@@ -120,15 +154,23 @@ impl RustBackend {
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
         let mut name_map = HashMap::new();
+        let mut used_names = HashSet::new();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
+                None => {
+                    let mut count = index + 1;
+                    Self::unused_name(&mut used_names, &mut count, |count| {
+                        format_ident!("{}{}", default, count, span = span)
+                    })
+                }
                 Some(name) => {
                     let name: Ident = name.to_camel_case().into();
                     let count = name_map.entry(name.clone()).or_insert(0_usize);
                     *count += 1;
-                    format_ident!("{}{}", name, count)
+                    Self::unused_name(&mut used_names, count, |count| {
+                        format_ident!("{}{}", name, count)
+                    })
                 }
             })
     }
@@ -145,6 +187,7 @@ impl Default for RustBackend {
             fix_map: HashMap::new(),
             var_map: HashMap::new(),
             name_map: HashMap::new(),
+            used_names: HashSet::new(),
             can_char: BTreeSet::new(),
             context: Vec::new(),
         }
-- 
2.43.0


From 584b4678d586a5bdd600d14d3d1ebc96df99d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 08/15] fix: names that lose all their letters in a case change
 are kept as they are instead of panicking

---
 src/chomp/name.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/chomp/name.rs b/src/chomp/name.rs
index 450b6e9..049dc9b 100644
--- a/src/chomp/name.rs
+++ b/src/chomp/name.rs
@@ -6,7 +6,7 @@ use std::{
 
 use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Ident, Span};
-use syn::{ext::IdentExt, spanned::Spanned};
+use syn::{ext::IdentExt, parse::Parser, spanned::Spanned};
 
 #[derive(Clone, Debug)]
 pub enum Content {
@@ -32,15 +32,26 @@ impl From<Content> for Ident {
     }
 }
 
+/// Changes the case of a name, unless that leaves no identifier, as for `__` and `_1`.
+fn convert_case<F: FnOnce(&str) -> String>(name: &str, convert: F) -> String {
+    let converted = convert(name);
+
+    if Ident::parse_any.parse_str(&converted).is_ok() {
+        converted
+    } else {
+        name.to_owned()
+    }
+}
+
 impl CamelCase for Content {
     fn to_camel_case(&self) -> Self::Owned {
         match self {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_camel_case(), span).into()
+                Ident::new(&convert_case(&name, str::to_camel_case), span).into()
             }
-            Self::Spanless(name) => name.to_camel_case().into(),
+            Self::Spanless(name) => convert_case(name, str::to_camel_case).into(),
         }
     }
 }
@@ -51,9 +62,9 @@ impl SnakeCase for Content {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_snake_case(), span).into()
+                Ident::new(&convert_case(&name, str::to_snake_case), span).into()
             }
-            Self::Spanless(name) => name.to_snake_case().into(),
+            Self::Spanless(name) => convert_case(name, str::to_snake_case).into(),
         }
     }
 }
-- 
2.43.0


From b0ef29552de879ce9f49cf10af0c65cb348cc087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 09/15] fix: hand-written JSON parser computes hex escapes
 positionally

---
 chomp-bench/src/json/mod.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 2279010..b5fafe3 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -119,22 +119,22 @@ impl Parse for Value {
             let mut out = 0;
             for c in &chars {
                 match c {
-                    '0' => out *= 16,
-                    '1' => out *= 16 + 1,
-                    '2' => out *= 16 + 2,
-                    '3' => out *= 16 + 3,
-                    '4' => out *= 16 + 4,
-                    '5' => out *= 16 + 5,
-                    '6' => out *= 16 + 6,
-                    '7' => out *= 16 + 7,
-                    '8' => out *= 16 + 8,
-                    '9' => out *= 16 + 9,
-                    'a' | 'A' => out *= 16 + 10,
-                    'b' | 'B' => out *= 16 + 11,
-                    'c' | 'C' => out *= 16 + 12,
-                    'd' | 'D' => out *= 16 + 13,
-                    'e' | 'E' => out *= 16 + 14,
-                    'f' | 'F' => out *= 16 + 15,
+                    '0' => out = out * 16,
+                    '1' => out = out * 16 + 1,
+                    '2' => out = out * 16 + 2,
+                    '3' => out = out * 16 + 3,
+                    '4' => out = out * 16 + 4,
+                    '5' => out = out * 16 + 5,
+                    '6' => out = out * 16 + 6,
+                    '7' => out = out * 16 + 7,
+                    '8' => out = out * 16 + 8,
+                    '9' => out = out * 16 + 9,
+                    'a' | 'A' => out = out * 16 + 10,
+                    'b' | 'B' => out = out * 16 + 11,
+                    'c' | 'C' => out = out * 16 + 12,
+                    'd' | 'D' => out = out * 16 + 13,
+                    'e' | 'E' => out = out * 16 + 14,
+                    'f' | 'F' => out = out * 16 + 15,
                     _ => unreachable!(),
                 };
             }
-- 
2.43.0


From 4639086ec8b90d627ef9c9a43e0fb6198ec1e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 10/15] fix: control characters in JSON strings print as
 escapes instead of panicking

---
 chomp-bench/src/json/mod.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index b5fafe3..c807b5c 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -48,12 +48,7 @@ impl fmt::Display for Value {
                     '\x0A' => write!(f, r#"\n"#),
                     '\x0D' => write!(f, r#"\r"#),
                     '\x09' => write!(f, r#"\t"#),
-                    _ => {
-                        let codepoint = u32::from(c) - 0x10000;
-                        let high: u16 = (codepoint / 0x400 + 0xD800).try_into().unwrap();
-                        let low: u16 = (codepoint % 0x400 + 0xDC00).try_into().unwrap();
-                        write!(f, r#"\u{:04X}\u{:04X}"#, high, low)
-                    }
+                    _ => write!(f, r#"\u{:04X}"#, u32::from(c)),
                 }?;
             }
             write!(f, "\"")
-- 
2.43.0


From b374a69e22cccefbce504e15c5e48c13d48d7ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 11/15] fix: hand-written JSON parser accepts empty containers
 holding white space

---
 chomp-bench/src/json/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index c807b5c..20e8083 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -203,6 +203,7 @@ impl Parse for Value {
             '[' => {
                 const ARRAY_TAIL: &[char] = &[',', ']'];
                 input.consume_str("[")?;
+                skip_ws(input);
                 let a = input
                     .iter_strict(Self::take, ',', ']', ARRAY_TAIL, FIRST_WS)
                     .collect::<Result<_, _>>()
@@ -213,6 +214,7 @@ impl Parse for Value {
             '{' => {
                 const OBJECT_TAIL: &[char] = &[',', '}'];
                 input.consume_str("{")?;
+                skip_ws(input);
                 let o = input
                     .iter_strict(
                         |p| {
-- 
2.43.0


From 5fb8d8864ddb2b990c3f594994d880fd420921d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 12/15] fix: self-hosted front end reports escapes that are no
 character instead of panicking

---
 autonibble/src/lib.rs | 50 ++++++++++++++++++++++++++++---------------
 src/nibble/convert.rs |  5 +++++
 2 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/autonibble/src/lib.rs b/autonibble/src/lib.rs
index 2fed0f0..f1faf35 100644
--- a/autonibble/src/lib.rs
+++ b/autonibble/src/lib.rs
@@ -1,4 +1,7 @@
-use std::{convert::TryInto, mem};
+use std::{
+    convert::{TryFrom, TryInto},
+    mem,
+};
 
 use chomp::{
     chomp::{
@@ -277,7 +280,11 @@ impl Convert for Term1 {
             }),
             Term1::Literal1(literal) => Ok(NamedExpression {
                 name: None,
-                expr: literal.contents1.into_iter().collect::<Literal>().into(),
+                expr: literal
+                    .contents1
+                    .into_iter()
+                    .collect::<Result<Literal, _>>()?
+                    .into(),
                 span: Span::call_site(),
             }),
             Term1::Parens1(parens) => parens.expr1.convert(context),
@@ -392,7 +399,7 @@ impl Iterator for Opt13 {
 }
 
 impl IntoIterator for Contents1 {
-    type Item = char;
+    type Item = Result<char, ConvertError>;
 
     type IntoIter = Opt11;
 
@@ -402,7 +409,7 @@ impl IntoIterator for Contents1 {
 }
 
 impl Iterator for Opt11 {
-    type Item = char;
+    type Item = Result<char, ConvertError>;
 
     fn next(&mut self) -> Option<Self::Item> {
         let orig = mem::replace(self, Opt11::None1(Epsilon));
@@ -410,27 +417,31 @@ impl Iterator for Opt11 {
             Opt11::None1(_) => None,
             Opt11::Plus1(contents) => {
                 *self = contents.opt1;
-                Some(contents.literal_char1.into())
+                Some(contents.literal_char1.try_into())
             }
         }
     }
 }
 
-impl From<LiteralChar1> for char {
-    fn from(c: LiteralChar1) -> Self {
+impl TryFrom<LiteralChar1> for char {
+    type Error = ConvertError;
+
+    fn try_from(c: LiteralChar1) -> Result<Self, Self::Error> {
         match c {
-            LiteralChar1::Literal1(c) => c.into(),
-            LiteralChar1::Escape1(e) => e.into(),
+            LiteralChar1::Literal1(c) => Ok(c.into()),
+            LiteralChar1::Escape1(e) => e.try_into(),
         }
     }
 }
 
-impl From<Escape1> for char {
-    fn from(e: Escape1) -> Self {
+impl TryFrom<Escape1> for char {
+    type Error = ConvertError;
+
+    fn try_from(e: Escape1) -> Result<Self, Self::Error> {
         match e.1 {
-            Alt171::Ascii1(a) => a.escape(),
-            Alt171::Oct1(o) => o.into(),
-            Alt171::Unicode1(u) => u.into(),
+            Alt171::Ascii1(a) => Ok(a.escape()),
+            Alt171::Oct1(o) => Ok(o.into()),
+            Alt171::Unicode1(u) => u.try_into(),
         }
     }
 }
@@ -458,10 +469,15 @@ impl From<Oct1> for char {
     }
 }
 
-impl From<Unicode1> for char {
-    fn from(u: Unicode1) -> Self {
+impl TryFrom<Unicode1> for char {
+    type Error = ConvertError;
+
+    fn try_from(u: Unicode1) -> Result<Self, Self::Error> {
         let s = u.up_to1.to_string();
-        u32::from_str_radix(&s, 16).unwrap().try_into().unwrap()
+        u32::from_str_radix(&s, 16)
+            .ok()
+            .and_then(|code| code.try_into().ok())
+            .ok_or(ConvertError::BadEscape(s))
     }
 }
 
diff --git a/src/nibble/convert.rs b/src/nibble/convert.rs
index ca6c95a..55dd687 100644
--- a/src/nibble/convert.rs
+++ b/src/nibble/convert.rs
@@ -62,6 +62,7 @@ pub enum ConvertError {
     EmptyCat(Span),
     EmptyAlt(Span),
     EmptyCall(Span),
+    BadEscape(String),
 }
 
 impl From<ConvertError> for syn::Error {
@@ -72,6 +73,7 @@ impl From<ConvertError> for syn::Error {
             ConvertError::EmptyCat(span)
             | ConvertError::EmptyAlt(span)
             | ConvertError::EmptyCall(span) => span,
+            ConvertError::BadEscape(_) => Span::call_site(),
         };
 
         Self::new(span, msg)
@@ -93,6 +95,9 @@ impl fmt::Display for ConvertError {
             Self::EmptyCall(_) => {
                 write!(f, "call has no function")
             }
+            Self::BadEscape(digits) => {
+                write!(f, "invalid unicode escape: `{}`", digits)
+            }
         }
     }
 }
-- 
2.43.0


From eaf2c08a01cfbd22ca524d90f7f4aa052dd386db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 13/15] fix: self-hosted front end names the goal Ast like the
 main one

---
 autonibble/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/autonibble/src/lib.rs b/autonibble/src/lib.rs
index f1faf35..b28d5f0 100644
--- a/autonibble/src/lib.rs
+++ b/autonibble/src/lib.rs
@@ -116,7 +116,13 @@ impl Convert for Ast {
 impl Convert for Stmt1 {
     fn convert(self, context: &mut Context) -> Result<NamedExpression, ConvertError> {
         match self {
-            Stmt1::Goal1(goal) => goal.expr1.convert(context),
+            Stmt1::Goal1(goal) => {
+                let inner = goal.expr1.convert(context)?;
+                Ok(NamedExpression {
+                    name: Name::merge(inner.name, Some(Name::new_variable("Ast".to_owned()))),
+                    ..inner
+                })
+            }
             Stmt1::Let1(stmt) => {
                 let mut names = stmt.names1.into_iter().peekable();
                 let name = Name::new_let(names.next().unwrap());
-- 
2.43.0


From 484e1ec25291449522598e938f12c4be19432234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 14/15] fix: errors about the whole goal point at its
 expression instead of the match keyword

---
 src/nibble/convert.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nibble/convert.rs b/src/nibble/convert.rs
index 55dd687..b746ae2 100644
--- a/src/nibble/convert.rs
+++ b/src/nibble/convert.rs
@@ -321,12 +321,11 @@ impl Convert for Expression {
 
 impl Convert for GoalStatement {
     fn convert(self, context: &mut Context) -> Result<NamedExpression, ConvertError> {
-        let span = self.span();
         let inner = self.expr.convert(context)?;
         Ok(NamedExpression {
             name: Name::merge(inner.name, Some(Name::new_variable("Ast".to_owned()))),
             expr: inner.expr,
-            span,
+            span: inner.span,
         })
     }
 }
-- 
2.43.0


From d74ac0d95e178fcecab8e5fea6229abd8781bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 15/15] fix: failing to write the generated code is reported
 even when the code is short

---
 autonibble/src/main.rs | 5 ++++-
 src/main.rs            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/autonibble/src/main.rs b/autonibble/src/main.rs
index 56c757d..4388336 100644
--- a/autonibble/src/main.rs
+++ b/autonibble/src/main.rs
@@ -51,7 +51,10 @@ fn main() {
             backend.emit_code(None, Span::call_site(), id)
         })
         .and_then(|code| {
-            write!(io::stdout(), "{:#}", code).map_err(|e| Box::new(e) as Box<dyn Error>)
+            let mut stdout = io::stdout();
+            write!(stdout, "{:#}", code)
+                .and_then(|()| stdout.flush())
+                .map_err(|e| Box::new(e) as Box<dyn Error>)
         });
 
     if let Err(e) = res {
diff --git a/src/main.rs b/src/main.rs
index 0954074..f74d731 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -50,7 +50,10 @@ fn main() {
             backend.emit_code(None, Span::call_site(), id)
         })
         .and_then(|code| {
-            write!(io::stdout(), "{:#}", code).map_err(|e| Box::new(e) as Box<dyn Error>)
+            let mut stdout = io::stdout();
+            write!(stdout, "{:#}", code)
+                .and_then(|()| stdout.flush())
+                .map_err(|e| Box::new(e) as Box<dyn Error>)
         });
 
     if let Err(e) = res {
-- 
2.43.0

