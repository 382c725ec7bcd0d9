From 7ab60e122d51143b7611217d924d9223393534ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:52 +0000
Subject: [PATCH 01/30] fix: resolve unprefixed QNames through the schema's
 default namespace

---
 xsd-internal/src/xsd/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index f676c72..66e8abe 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -139,7 +139,12 @@ impl<'input> Context<'input> {
                 },
             )?))
         } else {
-            Ok(LeafContent::Named(Name::new(name, Namespace::None)))
+            // unprefixed names belong to the default namespace of the schema document (if any)
+            let namespace = match self.default_namespace {
+                Some(ns) if !ns.is_empty() => self.shared.namespaces.get_or_insert(ns),
+                _ => Namespace::None,
+            };
+            Ok(LeafContent::Named(Name::new(name, namespace)))
         }
     }
 
-- 
2.43.0


From 0f6ce3069a3c11a9eb5072a78ca990425f36bf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:15 +0000
Subject: [PATCH 02/30] fix: treat an undeclared default namespace (xmlns="")
 as no namespace

---
 xsd/src/decode.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index a627f2b..450df65 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -53,11 +53,17 @@ pub fn decode(input: &str) -> Result<Document<'_>, FromXmlError> {
     Ok(Document(doc))
 }
 
+fn has_name(node: &roxmltree::Node<'_, '_>, name: &str, namespace: Option<&str>) -> bool {
+    let tag_name = node.tag_name();
+    // an undeclared default namespace (`xmlns=""`) is reported as an empty namespace
+    let tag_namespace = tag_name.namespace().filter(|ns| !ns.is_empty());
+    tag_name.name() == name && tag_namespace == namespace
+}
+
 impl Document<'_> {
     pub fn child(&self, name: &str, namespace: Option<&str>) -> Option<Node<'_>> {
         let root = self.0.root_element();
-        let tag_name = root.tag_name();
-        if !root.is_element() || tag_name.name() != name || tag_name.namespace() != namespace {
+        if !root.is_element() || !has_name(&root, name, namespace) {
             None
         } else {
             Some(Node::new(root))
@@ -94,8 +100,7 @@ impl<'a> Node<'a> {
                 .or_else(|| children.children.next());
         }
         if let Some(next) = &children.next {
-            let tag_name = next.tag_name();
-            return tag_name.name() == name && tag_name.namespace() == namespace;
+            return has_name(next, name, namespace);
         }
         false
     }
@@ -108,8 +113,7 @@ impl<'a> Node<'a> {
             .or_else(|| children.peeked.pop_front())
             .or_else(|| children.children.next())
         {
-            let tag_name = next.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if has_name(&next, name, namespace) {
                 return Some(Node::new(next));
             }
             children.next = Some(next)
@@ -132,24 +136,21 @@ impl<'a> Node<'a> {
     pub fn child(&self, name: &str, namespace: Option<&str>) -> Option<Node<'_>> {
         let mut children = self.children.borrow_mut();
         if let Some(next) = children.next.take() {
-            let tag_name = next.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if has_name(&next, name, namespace) {
                 return Some(Node::new(next));
             }
             children.next = Some(next)
         }
 
         for (ix, child) in children.peeked.iter().enumerate() {
-            let tag_name = child.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if has_name(child, name, namespace) {
                 return children.peeked.remove(ix).map(Node::new);
             }
         }
 
         #[allow(clippy::while_let_on_iterator)]
         while let Some(child) = children.children.next() {
-            let tag_name = child.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if has_name(&child, name, namespace) {
                 return Some(Node::new(child));
             }
             children.peeked.push_back(child);
-- 
2.43.0


From 02b44a7d0dc9b4fac48d44af152dde58f735692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:14 +0000
Subject: [PATCH 03/30] fix: generate valid identifiers for keywords, leading
 digits and empty names

---
 xsd-internal/src/ast/leaf.rs |  6 +++---
 xsd-internal/src/ast/root.rs | 21 +++++++++++----------
 xsd-internal/src/utils.rs    | 29 +++++++++++++++++++++++------
 3 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index c565ff9..c388ad3 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -4,7 +4,7 @@ use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote, TokenStreamExt};
+use quote::{quote, TokenStreamExt};
 
 #[derive(Debug, Clone)]
 pub struct Leaf {
@@ -155,7 +155,7 @@ impl Leaf {
                     unreachable!()
                 };
 
-                let first_name = format_ident!("{}", name.name.to_pascal_case());
+                let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     {
                         let mut vec = Vec::new();
@@ -185,7 +185,7 @@ impl Leaf {
                     unreachable!()
                 };
 
-                let first_name = format_ident!("{}", name.name.to_pascal_case());
+                let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     if #first_name::lookahead(node) {
                         Some(#value)
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 3b4944b..b46b434 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -1,11 +1,12 @@
 use std::collections::HashMap;
 
+use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 
 use super::{ElementContent, ElementDefinition, Leaf, LeafContent, LeafDefinition, Name};
 use inflector::Inflector;
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote, TokenStreamExt};
+use quote::{quote, TokenStreamExt};
 use syn::Ident;
 
 #[derive(Debug, Clone)]
@@ -84,17 +85,17 @@ impl Root {
             }
             Root::Enum(names) => {
                 let names = escape_enum_names(names.clone());
-                let variants = names.keys().map(|k| format_ident!("{}", k));
+                let variants = names.keys().map(|k| escape_ident(k));
                 let from_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
-                    let variant = format_ident!("{}", variant);
+                    let variant = escape_ident(variant);
                     quote! {
                         #name_xml => #root_name::#variant
                     }
                 });
                 let as_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
-                    let variant = format_ident!("{}", variant);
+                    let variant = escape_ident(variant);
                     quote! {
                         #root_name::#variant => #name_xml
                     }
@@ -144,7 +145,7 @@ impl Root {
             Root::Choice(ChoiceDefinition { variants, .. }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let mut type_ident = variant.definition.to_impl(ctx);
                     if variant.is_vec() {
                         type_ident = quote! { Vec<#type_ident> }
@@ -206,7 +207,7 @@ impl Root {
             }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let name_xml = &variant.name.name;
                     let inner = variant.definition.to_xml_impl(ctx);
                     let is_literal = matches!(variant.definition.content, LeafContent::Literal(_));
@@ -282,13 +283,13 @@ impl Root {
             Root::Choice(ChoiceDefinition { variants, .. }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let inner = variant.definition.from_xml_impl(ctx);
                     let name_xml = &variant.name.name;
                     let namespace_xml = ctx.quote_xml_namespace(&variant.name);
                     if variant.is_virtual {
                         if let LeafContent::Named(name) = &variant.definition.content {
-                            let first_name = format_ident!("{}", name.name.to_pascal_case());
+                            let first_name = escape_ident(&name.name.to_pascal_case());
                             quote! {
                                 if #first_name::lookahead(node) {
                                     Self::#variant_name(#inner)
@@ -365,7 +366,7 @@ impl Root {
                                 // TODO: reflect that in the type?
                                 unreachable!()
                             };
-                            let name = format_ident!("{}", name.name.to_pascal_case());
+                            let name = escape_ident(&name.name.to_pascal_case());
                             Some(quote! {
                                 #name::lookahead(node)
                             })
@@ -397,7 +398,7 @@ impl Root {
                             // TODO: reflect that in the type?
                             unreachable!()
                         };
-                        let name = format_ident!("{}", name.name.to_pascal_case());
+                        let name = escape_ident(&name.name.to_pascal_case());
                         quote! {
                             #name::lookahead(node)
                         }
diff --git a/xsd-internal/src/utils.rs b/xsd-internal/src/utils.rs
index 656910f..cfa4d8a 100644
--- a/xsd-internal/src/utils.rs
+++ b/xsd-internal/src/utils.rs
@@ -2,12 +2,29 @@ use quote::format_ident;
 
 pub fn escape_ident(name: &str) -> syn::Ident {
     match name {
-        " break" | "const" | "continue" | "crate" | "else" | "enum" | "extern" | "false" | "fn"
+        // keywords that are not allowed as raw identifiers
+        "self" | "Self" | "super" | "crate" | "_" => return format_ident!("{}_", name),
+        "as" | "break" | "const" | "continue" | "else" | "enum" | "extern" | "false" | "fn"
         | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut"
-        | "pub" | "ref" | "return" | "self" | "Self" | "static" | "struct" | "super" | "trait"
-        | "true" | "type" | "unsafe" | "use" | "where" | "while" | "async" | "await" | "dyn" => {
-            format_ident!("r#{}", name)
-        }
-        _ => format_ident!("{}", name),
+        | "pub" | "ref" | "return" | "static" | "struct" | "trait" | "true" | "type" | "unsafe"
+        | "use" | "where" | "while" | "async" | "await" | "dyn" | "abstract" | "become" | "box"
+        | "do" | "final" | "gen" | "macro" | "override" | "priv" | "try" | "typeof" | "unsized"
+        | "virtual" | "yield" => return format_ident!("r#{}", name),
+        "" => return format_ident!("_empty"),
+        _ => {}
+    }
+
+    // numerals other than digits, and circled letters, are not allowed in Rust identifiers
+    let name = name.replace(
+        |c: char| {
+            !(c == '_' || c.is_ascii_alphanumeric() || (!c.is_ascii() && c.is_alphabetic()))
+                || matches!(c, '\u{24b6}'..='\u{24e9}' | '\u{1f130}'..='\u{1f189}')
+        },
+        "_",
+    );
+    if name == "_" || name.starts_with(char::is_numeric) {
+        format_ident!("_{}", name)
+    } else {
+        format_ident!("{}", name)
     }
 }
-- 
2.43.0


From 17676cf4b69d23fdfbd4568fb01bd885e7611333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:30 +0000
Subject: [PATCH 04/30] fix: keep schema types from shadowing std types in the
 generated code

---
 xsd-internal/src/ast/attribute.rs    | 10 +++++-----
 xsd-internal/src/ast/leaf.rs         | 30 ++++++++++++++--------------
 xsd-internal/src/ast/leaf_content.rs |  2 +-
 xsd-internal/src/ast/literal_type.rs | 20 +++++++++----------
 xsd-internal/src/ast/root.rs         | 22 ++++++++++----------
 xsd-internal/src/xsd/context.rs      |  4 ++--
 xsd-internal/src/xsd/schema.rs       | 20 +++++++++----------
 7 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index 8b03c06..8b54188 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -19,7 +19,7 @@ impl Attribute {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let mut type_ident = self.content.to_impl(ctx);
         if self.is_optional {
-            type_ident = quote! { Option<#type_ident> };
+            type_ident = quote! { ::std::option::Option<#type_ident> };
         }
         let docs = self
             .docs
@@ -46,7 +46,7 @@ impl Attribute {
                 let val = self.#name_ident.as_ref().map(|val| {
                     #inner
                 });
-                if let Some(val) = val {
+                if let ::std::option::Option::Some(val) = val {
                     ctx.set_attr(#name_xml, val)
                 }
             }
@@ -67,10 +67,10 @@ impl Attribute {
         if self.is_optional {
             quote! {
                 #name_ident: {
-                    if let Some(val) = node.attribute(#name_xml) {
-                        Some(#inner)
+                    if let ::std::option::Option::Some(val) = node.attribute(#name_xml) {
+                        ::std::option::Option::Some(#inner)
                     } else {
-                        None
+                        ::std::option::Option::None
                     }
                 },
             }
diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index c388ad3..a1a3d1b 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -51,10 +51,10 @@ impl Leaf {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let mut type_ident = self.definition.to_impl(ctx);
         if self.is_vec() {
-            type_ident = quote! { Vec<#type_ident> }
+            type_ident = quote! { ::std::vec::Vec<#type_ident> }
         }
         if self.is_optional() {
-            type_ident = quote! { Option<#type_ident> }
+            type_ident = quote! { ::std::option::Option<#type_ident> }
         }
         let docs = self
             .definition
@@ -125,7 +125,7 @@ impl Leaf {
         }
         if self.is_optional() {
             tn = quote! {
-                if let Some(val) = val {
+                if let ::std::option::Option::Some(val) = val {
                     #tn
                 }
             };
@@ -158,7 +158,7 @@ impl Leaf {
                 let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     {
-                        let mut vec = Vec::new();
+                        let mut vec = ::std::vec::Vec::new();
                         while #first_name::lookahead(node) {
                             vec.push(#value);
                         }
@@ -170,9 +170,9 @@ impl Leaf {
                     value = quote! {
                         let val = #value;
                         if val.is_empty() {
-                            None
+                            ::std::option::Option::None
                         } else {
-                            Some(val)
+                            ::std::option::Option::Some(val)
                         }
                     }
                 }
@@ -188,9 +188,9 @@ impl Leaf {
                 let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     if #first_name::lookahead(node) {
-                        Some(#value)
+                        ::std::option::Option::Some(#value)
                     } else {
-                        None
+                        ::std::option::Option::None
                     }
                 };
             }
@@ -198,8 +198,8 @@ impl Leaf {
             value = if self.is_vec() {
                 let mut from_vec = quote! {
                     {
-                        let mut vec = Vec::new();
-                        while let Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                        let mut vec = ::std::vec::Vec::new();
+                        while let ::std::option::Option::Some(node) = node.next_child(#name_xml, #namespace_xml) {
                             vec.push(#value);
                         }
                         vec
@@ -210,9 +210,9 @@ impl Leaf {
                     from_vec = quote! {
                         let val = #from_vec;
                         if val.is_empty() {
-                            None
+                            ::std::option::Option::None
                         } else {
-                            Some(val)
+                            ::std::option::Option::Some(val)
                         }
                     }
                 }
@@ -220,10 +220,10 @@ impl Leaf {
                 from_vec
             } else if self.is_optional() {
                 quote! {
-                    if let Some(node) = node.next_child(#name_xml, #namespace_xml) {
-                        Some(#value)
+                    if let ::std::option::Option::Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                        ::std::option::Option::Some(#value)
                     } else {
-                        None
+                        ::std::option::Option::None
                     }
                 }
             } else if self.is_unordered {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 1c2733a..53a554c 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -64,7 +64,7 @@ impl LeafContent {
                     {
                         let val = node.text()?;
                         if val != #fixed {
-                            return Err(::xsd::decode::FromXmlError::FixedMismatch {
+                            return ::std::result::Result::Err(::xsd::decode::FromXmlError::FixedMismatch {
                                 expected: #fixed,
                                 received: val.to_string(),
                             }.into());
diff --git a/xsd-internal/src/ast/literal_type.rs b/xsd-internal/src/ast/literal_type.rs
index 9229eff..bef9d1d 100644
--- a/xsd-internal/src/ast/literal_type.rs
+++ b/xsd-internal/src/ast/literal_type.rs
@@ -45,22 +45,22 @@ impl LiteralType {
     pub fn to_impl(&self) -> TokenStream {
         use LiteralType::*;
         match self {
-            String => quote! { String },
+            String => quote! { ::std::string::String },
             Boolean => quote! { bool },
             Int64 => quote! { i64 },
             Uint64 => quote! { u64 },
             Int32 => quote! { i32 },
             Decimal => quote! { rust_decimal::Decimal },
             Float32 => quote! { f32 },
-            Any => quote! { String },
+            Any => quote! { ::std::string::String },
 
             // TODO: use proper types for the following
-            DateTime => quote! { String },
-            Time => quote! { String },
-            Date => quote! { String },
-            Duration => quote! { String },
-            Base64Binary => quote! { String },
-            HexBinary => quote! { String },
+            DateTime => quote! { ::std::string::String },
+            Time => quote! { ::std::string::String },
+            Date => quote! { ::std::string::String },
+            Duration => quote! { ::std::string::String },
+            Base64Binary => quote! { ::std::string::String },
+            HexBinary => quote! { ::std::string::String },
         }
     }
 
@@ -71,11 +71,11 @@ impl LiteralType {
     pub fn from_str_impl(&self) -> TokenStream {
         let type_ = self.xsd_name();
         quote! {
-            std::str::FromStr::from_str(val).map_err(|err| {
+            ::std::str::FromStr::from_str(val).map_err(|err| {
                 ::xsd::decode::FromXmlError::ParseType {
                     type_: #type_.to_string(),
                     value: val.to_string(),
-                    err: Box::new(err),
+                    err: ::std::boxed::Box::new(err),
                 }
             })?
         }
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index b46b434..ee671c3 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -63,12 +63,12 @@ impl Root {
                         impl ::std::str::FromStr for #root_name {
                             type Err = ::xsd::decode::FromXmlError;
 
-                            fn from_str(s: &str) -> Result<Self, Self::Err> {
-                                Ok(#root_name(::std::str::FromStr::from_str(s).map_err(|err| {
+                            fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> {
+                                ::std::result::Result::Ok(#root_name(::std::str::FromStr::from_str(s).map_err(|err| {
                                     ::xsd::decode::FromXmlError::ParseType {
                                         type_: #type_.to_string(),
                                         value: s.to_string(),
-                                        err: Box::new(err),
+                                        err: ::std::boxed::Box::new(err),
                                     }
                                 })?))
                             }
@@ -109,10 +109,10 @@ impl Root {
                     impl ::std::str::FromStr for #root_name {
                         type Err = ::xsd::decode::FromXmlError;
 
-                        fn from_str(s: &str) -> Result<Self, Self::Err> {
-                            Ok(match s {
+                        fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> {
+                            ::std::result::Result::Ok(match s {
                                 #(#from_str_variants,)*
-                                _ => return Err(::xsd::decode::FromXmlError::InvalidVariant {
+                                _ => return ::std::result::Result::Err(::xsd::decode::FromXmlError::InvalidVariant {
                                     name: s.to_string(),
                                 })
                             })
@@ -148,7 +148,7 @@ impl Root {
                     let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let mut type_ident = variant.definition.to_impl(ctx);
                     if variant.is_vec() {
-                        type_ident = quote! { Vec<#type_ident> }
+                        type_ident = quote! { ::std::vec::Vec<#type_ident> }
                     }
                     quote! {
                         #variant_name(#type_ident)
@@ -305,8 +305,8 @@ impl Root {
                         if variant.is_vec() {
                             quote! {
                                 if node.peek_child(#name_xml, #namespace_xml) {
-                                    let mut vec = Vec::new();
-                                    while let Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                                    let mut vec = ::std::vec::Vec::new();
+                                    while let ::std::option::Option::Some(node) = node.next_child(#name_xml, #namespace_xml) {
                                         vec.push(#inner);
                                     }
                                     Self::#variant_name(vec)
@@ -314,7 +314,7 @@ impl Root {
                             }
                         } else {
                             quote! {
-                                if let Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                                if let ::std::option::Option::Some(node) = node.next_child(#name_xml, #namespace_xml) {
                                     Self::#variant_name(#inner)
                                 }
                             }
@@ -325,7 +325,7 @@ impl Root {
                 let variant_name = name.to_string();
                 quote! {
                     #(#variants else )* {
-                        return Err(::xsd::decode::FromXmlError::MissingVariant {
+                        return ::std::result::Result::Err(::xsd::decode::FromXmlError::MissingVariant {
                             name: #variant_name.to_string(),
                         }.into())
                     }
diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 66e8abe..7279e45 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -170,11 +170,11 @@ impl SchemaContext {
 
     pub fn quote_xml_namespace(&self, name: &Name) -> TokenStream {
         match &name.namespace {
-            Namespace::None => quote!(None),
+            Namespace::None => quote!(::std::option::Option::None),
             Namespace::Id(id) => {
                 let ns = self.namespaces.get_by_id(*id);
                 let ns = &ns.namespace;
-                quote!(Some(#ns))
+                quote!(::std::option::Option::Some(#ns))
             }
         }
     }
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index cc1a1b2..af0cada 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -255,36 +255,36 @@ impl Schema {
 
         result.append_all(quote! {
             impl #name_ident {
-                pub fn to_xml(&self) -> Result<Vec<u8>, ::xsd::xml::writer::Error> {
+                pub fn to_xml(&self) -> ::std::result::Result<::std::vec::Vec<u8>, ::xsd::xml::writer::Error> {
                     use ::xsd::xml::writer::events::XmlEvent;
 
-                    let mut body = Vec::new();
+                    let mut body = ::std::vec::Vec::new();
                     let mut writer = ::xsd::xml::writer::EmitterConfig::new()
                         .perform_indent(true)
                         .create_writer(&mut body);
 
                     writer.write(XmlEvent::StartDocument {
                         version: ::xsd::xml::common::XmlVersion::Version10,
-                        encoding: Some("UTF-8"),
-                        standalone: None,
+                        encoding: ::std::option::Option::Some("UTF-8"),
+                        standalone: ::std::option::Option::None,
                     })?;
                     let mut ctx = ::xsd::Context::new(#name_xml);
                     self.to_xml_writer(ctx, &mut writer)?;
 
-                    Ok(body)
+                    ::std::result::Result::Ok(body)
                 }
 
                 fn to_xml_writer<'a, 'b, W: ::std::io::Write>(
                     &'a self,
                     mut ctx: ::xsd::Context<'a, 'b>,
                     writer: &mut ::xsd::xml::writer::EventWriter<W>,
-                ) -> Result<(), ::xsd::xml::writer::Error> {
+                ) -> ::std::result::Result<(), ::xsd::xml::writer::Error> {
                     use ::xsd::xml::writer::events::XmlEvent;
 
                     #(ctx #element_ns;)*
                     #to_xml
 
-                    Ok(())
+                    ::std::result::Result::Ok(())
                 }
             }
         });
@@ -295,14 +295,14 @@ impl Schema {
 
         result.append_all(quote! {
             impl #name_ident {
-                pub fn from_xml(input: impl AsRef<str>) -> Result<Self, ::xsd::decode::FromXmlError> {
+                pub fn from_xml(input: impl ::std::convert::AsRef<str>) -> ::std::result::Result<Self, ::xsd::decode::FromXmlError> {
                     let doc = ::xsd::decode::decode(input.as_ref())?;
                     let node = doc.try_child(#name_xml, #namespace_xml)?;
                     Self::from_xml_node(&node)
                 }
 
-                fn from_xml_node(node: &::xsd::decode::Node) -> Result<Self, ::xsd::decode::FromXmlError> {
-                    Ok(#from_xml)
+                fn from_xml_node(node: &::xsd::decode::Node) -> ::std::result::Result<Self, ::xsd::decode::FromXmlError> {
+                    ::std::result::Result::Ok(#from_xml)
                 }
             }
         });
-- 
2.43.0


From f2c86d24a5ce56d2a0737529efcbf009c8f60f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:16 +0000
Subject: [PATCH 05/30] fix: write exactly one element around simple typed,
 fixed and choice content

---
 xsd-internal/src/ast/element_definition.rs | 11 ++---------
 xsd-internal/src/ast/leaf.rs               | 18 +-----------------
 xsd-internal/src/ast/leaf_content.rs       |  9 +++++++++
 xsd-internal/src/ast/root.rs               | 13 +++----------
 4 files changed, 15 insertions(+), 36 deletions(-)

diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 8504397..1a760bb 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -1,4 +1,3 @@
-use crate::ast::{LeafContent, LeafDefinition};
 use crate::xsd::context::SchemaContext;
 
 use super::{Attribute, ElementContent};
@@ -42,14 +41,8 @@ impl ElementDefinition {
         // let the base element (<xs:extension base="" />) do the wrapping so that the base type
         // is still able to add attributes to the XML element
         let is_named_leaf = matches!(
-            self.content,
-            Some(ElementContent::Leaf(
-                _,
-                LeafDefinition {
-                    content: LeafContent::Named(_),
-                    ..
-                },
-            ))
+            &self.content,
+            Some(ElementContent::Leaf(_, definition)) if !definition.content.is_text(ctx)
         );
         let wrap = !self.is_virtual && !is_named_leaf;
         if wrap {
diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index a1a3d1b..74fa7bb 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -1,5 +1,4 @@
 use super::{LeafContent, LeafDefinition, Name};
-use crate::ast::Root;
 use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
@@ -85,22 +84,7 @@ impl Leaf {
             });
         }
 
-        let wrap = !self.is_virtual
-            && match &self.definition {
-                LeafDefinition {
-                    content: LeafContent::Named(name),
-                    ..
-                } => {
-                    matches!(
-                        ctx.resolve(name),
-                        Some(Root::Leaf(LeafDefinition {
-                            content: LeafContent::Literal(_),
-                            ..
-                        }))
-                    )
-                }
-                _ => true,
-            };
+        let wrap = !self.is_virtual && self.definition.content.is_text(ctx);
 
         if wrap {
             tn.append_all(quote! {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 53a554c..e7c9328 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -12,6 +12,15 @@ pub enum LeafContent {
 }
 
 impl LeafContent {
+    /// Whether the content is plain text, i.e. whether [`Self::to_xml_impl`] leaves writing the
+    /// surrounding element to the caller.
+    pub fn is_text(&self, ctx: &SchemaContext) -> bool {
+        match self {
+            LeafContent::Literal(_) | LeafContent::Fixed(_) => true,
+            LeafContent::Named(name) => matches!(ctx.resolve(name), Some(Root::Leaf(_))),
+        }
+    }
+
     pub fn to_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             LeafContent::Literal(literal) => literal.to_impl(),
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index ee671c3..d92e3bc 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -173,13 +173,7 @@ impl Root {
                     #inner
                 };
                 // TODO: improve those cases to make them easier to understand
-                if !matches!(
-                    def,
-                    LeafDefinition {
-                        content: LeafContent::Named(_),
-                        ..
-                    }
-                ) {
+                if def.content.is_text(ctx) {
                     quote! {
                         ctx.write_start_element(writer)?;
                         #tn
@@ -208,10 +202,9 @@ impl Root {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
                     let variant_name = escape_ident(&variant.name.name.to_pascal_case());
-                    let name_xml = &variant.name.name;
+                    let name_xml = ctx.get_xml_element_name(&variant.name);
                     let inner = variant.definition.to_xml_impl(ctx);
-                    let is_literal = matches!(variant.definition.content, LeafContent::Literal(_));
-                    let mut inner = if is_literal {
+                    let mut inner = if variant.definition.content.is_text(ctx) {
                         quote! {
                             let mut ctx = ::xsd::Context::new(#name_xml);
                             ctx.write_start_element(writer)?;
-- 
2.43.0


From db5316af22288024e8002fcd2a58475867b5fd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:19 +0000
Subject: [PATCH 06/30] fix: decode repeated sequences inside a choice

---
 xsd-internal/src/ast/root.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index d92e3bc..4286799 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -283,9 +283,21 @@ impl Root {
                     if variant.is_virtual {
                         if let LeafContent::Named(name) = &variant.definition.content {
                             let first_name = escape_ident(&name.name.to_pascal_case());
-                            quote! {
-                                if #first_name::lookahead(node) {
-                                    Self::#variant_name(#inner)
+                            if variant.is_vec() {
+                                quote! {
+                                    if #first_name::lookahead(node) {
+                                        let mut vec = ::std::vec::Vec::new();
+                                        while #first_name::lookahead(node) {
+                                            vec.push(#inner);
+                                        }
+                                        Self::#variant_name(vec)
+                                    }
+                                }
+                            } else {
+                                quote! {
+                                    if #first_name::lookahead(node) {
+                                        Self::#variant_name(#inner)
+                                    }
                                 }
                             }
                         } else {
-- 
2.43.0


From 5ef91a4ee0231742f5991c3d66bb909606db9145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 07/30] fix: accept optional members of xs:all at any position

---
 xsd-internal/src/ast/leaf.rs | 10 ++++++++--
 xsd-internal/src/ast/root.rs |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index 74fa7bb..f0977df 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -179,11 +179,17 @@ impl Leaf {
                 };
             }
         } else {
+            // members of a `xs:all` are not bound to a position
+            let next_child = if self.is_unordered {
+                quote!(child)
+            } else {
+                quote!(next_child)
+            };
             value = if self.is_vec() {
                 let mut from_vec = quote! {
                     {
                         let mut vec = ::std::vec::Vec::new();
-                        while let ::std::option::Option::Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                        while let ::std::option::Option::Some(node) = node.#next_child(#name_xml, #namespace_xml) {
                             vec.push(#value);
                         }
                         vec
@@ -204,7 +210,7 @@ impl Leaf {
                 from_vec
             } else if self.is_optional() {
                 quote! {
-                    if let ::std::option::Option::Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                    if let ::std::option::Option::Some(node) = node.#next_child(#name_xml, #namespace_xml) {
                         ::std::option::Option::Some(#value)
                     } else {
                         ::std::option::Option::None
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 4286799..3a263d5 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -361,7 +361,7 @@ impl Root {
                         if *prev_required {
                             return None;
                         }
-                        *prev_required = !leaf.is_optional();
+                        *prev_required = !leaf.is_optional() && !leaf.is_unordered;
 
                         if leaf.is_virtual {
                             let name = if let LeafContent::Named(name) = &leaf.definition.content {
-- 
2.43.0


From 126d3845a74fcc390e2b835803825738cd90f36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:26 +0000
Subject: [PATCH 08/30] fix: write the attributes of extended base types

---
 xsd-internal/src/ast/attribute.rs          |  6 ++--
 xsd-internal/src/ast/element_definition.rs | 40 ++++++++++++++++++++--
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index 8b54188..190eef7 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -33,7 +33,7 @@ impl Attribute {
         }
     }
 
-    pub fn to_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
+    pub fn to_xml_impl(&self, receiver: &TokenStream, ctx: &SchemaContext) -> TokenStream {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let name_xml = ctx.get_xml_element_name(&self.name);
         let inner = match &self.content {
@@ -43,7 +43,7 @@ impl Attribute {
         };
         if self.is_optional {
             quote! {
-                let val = self.#name_ident.as_ref().map(|val| {
+                let val = #receiver.#name_ident.as_ref().map(|val| {
                     #inner
                 });
                 if let ::std::option::Option::Some(val) = val {
@@ -52,7 +52,7 @@ impl Attribute {
             }
         } else {
             quote! {
-                let val = &self.#name_ident;
+                let val = &#receiver.#name_ident;
                 let val = #inner;
                 ctx.set_attr(#name_xml, val);
             }
diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 1a760bb..be89f9e 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -1,6 +1,8 @@
+use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 
-use super::{Attribute, ElementContent};
+use super::{Attribute, ElementContent, LeafContent, Name, Root};
+use inflector::Inflector;
 use proc_macro2::TokenStream;
 use quote::quote;
 use quote::TokenStreamExt;
@@ -35,7 +37,7 @@ impl ElementDefinition {
     pub fn to_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let mut ts = TokenStream::new();
         for attr in &self.attributes {
-            ts.append_all(attr.to_xml_impl(ctx));
+            ts.append_all(attr.to_xml_impl(&quote!(self), ctx));
         }
 
         // let the base element (<xs:extension base="" />) do the wrapping so that the base type
@@ -46,6 +48,8 @@ impl ElementDefinition {
         );
         let wrap = !self.is_virtual && !is_named_leaf;
         if wrap {
+            // the attributes of the base have to be known before the start of the element is written
+            ts.append_all(self.base_attributes_to_xml_impl(&quote!(self), ctx, &mut Vec::new()));
             ts.append_all(quote! { ctx.write_start_element(writer)?; });
         }
         if let Some(content) = &self.content {
@@ -57,6 +61,38 @@ impl ElementDefinition {
         ts
     }
 
+    fn base_attributes_to_xml_impl<'a>(
+        &'a self,
+        receiver: &TokenStream,
+        ctx: &'a SchemaContext,
+        visited: &mut Vec<&'a Name>,
+    ) -> TokenStream {
+        let (field, base) = match &self.content {
+            Some(ElementContent::Leaf(name, definition)) => (name, definition),
+            Some(ElementContent::Leaves(leaves)) => match leaves.first() {
+                Some(leaf) if leaf.is_virtual => (&leaf.name, &leaf.definition),
+                _ => return TokenStream::new(),
+            },
+            None => return TokenStream::new(),
+        };
+
+        let mut ts = TokenStream::new();
+        if let LeafContent::Named(name) = &base.content {
+            if let Some(Root::Element(def)) = ctx.elements.get(name) {
+                if !def.is_virtual && !visited.contains(&name) {
+                    visited.push(name);
+                    let field_ident = escape_ident(&field.name.to_snake_case());
+                    let receiver = quote!(#receiver.#field_ident);
+                    for attr in &def.attributes {
+                        ts.append_all(attr.to_xml_impl(&receiver, ctx));
+                    }
+                    ts.append_all(def.base_attributes_to_xml_impl(&receiver, ctx, visited));
+                }
+            }
+        }
+        ts
+    }
+
     pub fn from_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let mut ts = TokenStream::new();
         if let Some(content) = &self.content {
-- 
2.43.0


From 125732cc9e4dd7031e96b2f96de517ba62d1502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:29 +0000
Subject: [PATCH 09/30] fix: decode attributes of named simple types

---
 xsd-internal/src/ast/attribute.rs          | 4 ++--
 xsd-internal/src/ast/element_definition.rs | 2 +-
 xsd-internal/src/ast/leaf_content.rs       | 7 +++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index 190eef7..7f175a4 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -59,10 +59,10 @@ impl Attribute {
         }
     }
 
-    pub fn from_xml_impl(&self) -> TokenStream {
+    pub fn from_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let name_xml = &self.name.name;
-        let inner = self.content.from_str_impl();
+        let inner = self.content.from_str_impl(ctx);
 
         if self.is_optional {
             quote! {
diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index be89f9e..bfaae83 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -99,7 +99,7 @@ impl ElementDefinition {
             ts.append_all(content.from_xml_impl(ctx));
         }
         for attr in &self.attributes {
-            ts.append_all(attr.from_xml_impl());
+            ts.append_all(attr.from_xml_impl(ctx));
         }
         quote! {
             {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index e7c9328..f956a5a 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -84,10 +84,13 @@ impl LeafContent {
         }
     }
 
-    pub fn from_str_impl(&self) -> TokenStream {
+    pub fn from_str_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             LeafContent::Literal(literal) => literal.from_str_impl(),
-            LeafContent::Named(name) => name.from_str_impl(),
+            LeafContent::Named(name) => match ctx.elements.get(name) {
+                Some(Root::Leaf(def)) => def.content.from_str_impl(ctx),
+                _ => name.from_str_impl(),
+            },
             LeafContent::Fixed(_) => quote! { () },
         }
     }
-- 
2.43.0


From 8377515b5660e34da50e79e9d366f4bcd5e5b9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:54 +0000
Subject: [PATCH 10/30] fix: reject attributes that differ from their fixed
 value

---
 xsd-internal/src/ast/leaf_content.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index f956a5a..8963ae5 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -68,16 +68,12 @@ impl LeafContent {
                 Some(Root::Leaf(def)) => def.from_xml_impl(ctx),
                 _ => name.from_xml_impl(),
             },
-            LeafContent::Fixed(fixed) => {
+            LeafContent::Fixed(_) => {
+                let inner = self.from_str_impl(ctx);
                 quote! {
                     {
                         let val = node.text()?;
-                        if val != #fixed {
-                            return ::std::result::Result::Err(::xsd::decode::FromXmlError::FixedMismatch {
-                                expected: #fixed,
-                                received: val.to_string(),
-                            }.into());
-                        }
+                        #inner
                     }
                 }
             }
@@ -91,7 +87,18 @@ impl LeafContent {
                 Some(Root::Leaf(def)) => def.content.from_str_impl(ctx),
                 _ => name.from_str_impl(),
             },
-            LeafContent::Fixed(_) => quote! { () },
+            LeafContent::Fixed(fixed) => {
+                quote! {
+                    {
+                        if val != #fixed {
+                            return ::std::result::Result::Err(::xsd::decode::FromXmlError::FixedMismatch {
+                                expected: #fixed,
+                                received: val.to_string(),
+                            }.into());
+                        }
+                    }
+                }
+            }
         }
     }
 }
-- 
2.43.0


From b8511b15435fd5bdd491cbd0ec65aa63e6c67883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:58 +0000
Subject: [PATCH 11/30] fix: read the whole text of an element, around comments
 and processing instructions

---
 xsd-internal/src/ast/leaf_content.rs |  2 ++
 xsd-internal/src/ast/root.rs         |  1 +
 xsd/src/decode.rs                    | 20 +++++++++++++-------
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 8963ae5..df638b6 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -60,6 +60,7 @@ impl LeafContent {
                 quote! {
                     {
                         let val = node.text()?;
+                        let val = val.as_ref();
                         #inner
                     }
                 }
@@ -73,6 +74,7 @@ impl LeafContent {
                 quote! {
                     {
                         let val = node.text()?;
+                        let val = val.as_ref();
                         #inner
                     }
                 }
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 3a263d5..16c1f2f 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -263,6 +263,7 @@ impl Root {
                 quote! {
                     {
                         let val = node.text()?;
+                        let val = val.as_ref();
                         ::std::str::FromStr::from_str(val)?
                     }
                 }
diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index 450df65..7df6f3e 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -1,3 +1,4 @@
+use std::borrow::Cow;
 use std::cell::RefCell;
 use std::collections::VecDeque;
 use std::ops::Range;
@@ -178,14 +179,19 @@ impl<'a> Node<'a> {
             })
     }
 
-    pub fn text(&self) -> Result<&str, FromXmlError> {
-        if self.node.first_child().is_none() {
-            Ok("")
-        } else {
-            self.node.text().ok_or_else(|| FromXmlError::TextExpected {
-                name: self.node.tag_name().name().to_string(),
-            })
+    pub fn text(&self) -> Result<Cow<'a, str>, FromXmlError> {
+        let mut text = Cow::Borrowed("");
+        // comments and processing instructions are not part of the text, but might split it
+        for child in self.node.children() {
+            if child.is_element() {
+                return Err(FromXmlError::TextExpected {
+                    name: self.node.tag_name().name().to_string(),
+                });
+            } else if child.is_text() {
+                text += child.text().unwrap_or_default();
+            }
         }
+        Ok(text)
     }
 
     pub fn range(&self) -> Range<usize> {
-- 
2.43.0


From e66709f372c61d1e18757e1a78f2b39e34afd00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:46 +0000
Subject: [PATCH 12/30] fix: keep carriage returns in encoded text

---
 xsd-internal/src/ast/leaf_content.rs |  6 ++----
 xsd-internal/src/ast/root.rs         |  5 +----
 xsd-internal/src/xsd/schema.rs       |  2 --
 xsd/src/lib.rs                       | 17 +++++++++++++++++
 4 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index df638b6..b77030b 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -38,9 +38,7 @@ impl LeafContent {
                 let inner = literal.to_xml_impl();
                 quote! {
                     let val = #inner;
-                    if !val.is_empty() {
-                        writer.write(XmlEvent::characters(&val))?;
-                    }
+                    ::xsd::write_text(writer, &val)?;
                 }
             }
             LeafContent::Named(name) => match ctx.elements.get(name) {
@@ -48,7 +46,7 @@ impl LeafContent {
                 _ => name.to_xml_impl(),
             },
             LeafContent::Fixed(fixed) => quote! {
-                writer.write(XmlEvent::characters(#fixed))?;
+                ::xsd::write_text(writer, #fixed)?;
             },
         }
     }
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 16c1f2f..4e74e17 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -186,10 +186,7 @@ impl Root {
             Root::Enum(_) => {
                 quote! {
                     ctx.write_start_element(writer)?;
-                    let val = self.to_string();
-                    if !val.is_empty() {
-                        writer.write(XmlEvent::characters(&val))?;
-                    }
+                    ::xsd::write_text(writer, self.as_str())?;
                     ctx.write_end_element(writer)?;
                 }
             }
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index af0cada..7ea4eae 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -279,8 +279,6 @@ impl Schema {
                     mut ctx: ::xsd::Context<'a, 'b>,
                     writer: &mut ::xsd::xml::writer::EventWriter<W>,
                 ) -> ::std::result::Result<(), ::xsd::xml::writer::Error> {
-                    use ::xsd::xml::writer::events::XmlEvent;
-
                     #(ctx #element_ns;)*
                     #to_xml
 
diff --git a/xsd/src/lib.rs b/xsd/src/lib.rs
index 6ad4798..1f44f08 100644
--- a/xsd/src/lib.rs
+++ b/xsd/src/lib.rs
@@ -12,6 +12,23 @@ use xml::name::Name;
 use xml::namespace::{Namespace, NS_NO_PREFIX};
 use xml::writer::events::XmlEvent;
 
+/// Write the text content of an element.
+pub fn write_text<W: std::io::Write>(
+    writer: &mut ::xml::writer::EventWriter<W>,
+    text: &str,
+) -> Result<(), xml::writer::Error> {
+    // a literal carriage return would be read as a line feed
+    for (i, line) in text.split('\r').enumerate() {
+        if i > 0 {
+            writer.write(XmlEvent::RawCharacters("&#xD;"))?;
+        }
+        if !line.is_empty() {
+            writer.write(XmlEvent::characters(line))?;
+        }
+    }
+    Ok(())
+}
+
 pub enum Context<'a, 'b> {
     Virtual(&'b mut ContextInner<'a>),
     Context(ContextInner<'a>),
-- 
2.43.0


From c45f7e7ab7a57848b595906920662e62bf21fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:51 +0000
Subject: [PATCH 13/30] fix: escape namespace URIs in encoded documents

---
 xsd/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/xsd/src/lib.rs b/xsd/src/lib.rs
index 1f44f08..26a2b19 100644
--- a/xsd/src/lib.rs
+++ b/xsd/src/lib.rs
@@ -8,6 +8,7 @@ use std::borrow::Cow;
 use std::mem;
 
 use xml::attribute::Attribute;
+use xml::escape::escape_str_attribute;
 use xml::name::Name;
 use xml::namespace::{Namespace, NS_NO_PREFIX};
 use xml::writer::events::XmlEvent;
@@ -40,6 +41,11 @@ pub struct ContextInner<'a> {
     namespace: Namespace,
 }
 
+/// The writer does not escape namespace URIs on its own.
+fn escape_uri(uri: impl Into<String>) -> String {
+    escape_str_attribute(&uri.into()).into_owned()
+}
+
 impl<'a, 'b> Context<'a, 'b> {
     pub fn new(name: impl Into<Name<'a>>) -> Self {
         Context::Context(ContextInner {
@@ -66,10 +72,10 @@ impl<'a, 'b> Context<'a, 'b> {
     pub fn set_ns(&mut self, prefix: impl Into<String>, uri: impl Into<String>) {
         match self {
             Context::Virtual(inner) => {
-                inner.namespace.put(prefix, uri);
+                inner.namespace.put(prefix, escape_uri(uri));
             }
             Context::Context(inner) => {
-                inner.namespace.put(prefix, uri);
+                inner.namespace.put(prefix, escape_uri(uri));
             }
         }
     }
@@ -77,10 +83,10 @@ impl<'a, 'b> Context<'a, 'b> {
     pub fn set_default_ns(&mut self, uri: impl Into<String>) {
         match self {
             Context::Virtual(inner) => {
-                inner.namespace.put(NS_NO_PREFIX, uri);
+                inner.namespace.put(NS_NO_PREFIX, escape_uri(uri));
             }
             Context::Context(inner) => {
-                inner.namespace.put(NS_NO_PREFIX, uri);
+                inner.namespace.put(NS_NO_PREFIX, escape_uri(uri));
             }
         }
     }
-- 
2.43.0


From 5e1fd3115ff45392247ebcf54a1e2edf09c53b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:11 +0000
Subject: [PATCH 14/30] fix: read and write booleans, numbers and special
 floats in their XSD syntax

---
 xsd-internal/src/ast/attribute.rs    | 10 ++++--
 xsd-internal/src/ast/literal_type.rs | 23 +++++++++++--
 xsd-internal/src/ast/root.rs         | 13 +++++---
 xsd/src/decode.rs                    | 50 ++++++++++++++++++++++++++++
 xsd/src/lib.rs                       |  9 +++++
 5 files changed, 96 insertions(+), 9 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index 7f175a4..a104822 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -1,4 +1,4 @@
-use super::{LeafContent, Name};
+use super::{LeafContent, LeafDefinition, Name, Root};
 use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
@@ -38,7 +38,13 @@ impl Attribute {
         let name_xml = ctx.get_xml_element_name(&self.name);
         let inner = match &self.content {
             LeafContent::Literal(literal) => literal.to_xml_impl(),
-            LeafContent::Named(_) => quote! { val.to_string() },
+            LeafContent::Named(name) => match ctx.resolve(name) {
+                Some(Root::Leaf(LeafDefinition {
+                    content: LeafContent::Literal(literal),
+                    ..
+                })) => literal.to_xml_impl(),
+                _ => quote! { val.to_string() },
+            },
             LeafContent::Fixed(fixed) => quote! { #fixed },
         };
         if self.is_optional {
diff --git a/xsd-internal/src/ast/literal_type.rs b/xsd-internal/src/ast/literal_type.rs
index bef9d1d..05b99fc 100644
--- a/xsd-internal/src/ast/literal_type.rs
+++ b/xsd-internal/src/ast/literal_type.rs
@@ -65,13 +65,32 @@ impl LiteralType {
     }
 
     pub fn to_xml_impl(&self) -> TokenStream {
-        quote!(val.to_string())
+        match self {
+            LiteralType::Float32 => quote!(::xsd::float_to_string(val)),
+            _ => quote!(val.to_string()),
+        }
+    }
+
+    /// The expression that converts the XSD literal `val` into a literal of the Rust type.
+    pub fn literal_impl(&self) -> TokenStream {
+        use LiteralType::*;
+        match self {
+            Boolean => quote!(::xsd::decode::boolean(val)),
+            Int64 | Int32 => quote!(::xsd::decode::integer(val)),
+            Uint64 => quote!(::xsd::decode::unsigned(val)),
+            Decimal => quote!(::xsd::decode::decimal(val)),
+            Float32 => quote!(::xsd::decode::float(val)),
+            String | DateTime | Time | Date | Duration | Base64Binary | HexBinary | Any => {
+                quote!(val)
+            }
+        }
     }
 
     pub fn from_str_impl(&self) -> TokenStream {
         let type_ = self.xsd_name();
+        let literal = self.literal_impl();
         quote! {
-            ::std::str::FromStr::from_str(val).map_err(|err| {
+            ::std::str::FromStr::from_str(#literal).map_err(|err| {
                 ::xsd::decode::FromXmlError::ParseType {
                     type_: #type_.to_string(),
                     value: val.to_string(),
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 4e74e17..c4619f7 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -57,17 +57,19 @@ impl Root {
                 let mut tn = quote! {
                     (pub #inner);
                 };
-                if matches!(def.content, LeafContent::Literal(_)) {
+                if let LeafContent::Literal(literal) = &def.content {
                     let type_ = root_name.to_string();
+                    let from_literal = literal.literal_impl();
+                    let to_literal = literal.to_xml_impl();
                     tn.append_all(quote! {
                         impl ::std::str::FromStr for #root_name {
                             type Err = ::xsd::decode::FromXmlError;
 
-                            fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> {
-                                ::std::result::Result::Ok(#root_name(::std::str::FromStr::from_str(s).map_err(|err| {
+                            fn from_str(val: &str) -> ::std::result::Result<Self, Self::Err> {
+                                ::std::result::Result::Ok(#root_name(::std::str::FromStr::from_str(#from_literal).map_err(|err| {
                                     ::xsd::decode::FromXmlError::ParseType {
                                         type_: #type_.to_string(),
-                                        value: s.to_string(),
+                                        value: val.to_string(),
                                         err: ::std::boxed::Box::new(err),
                                     }
                                 })?))
@@ -76,7 +78,8 @@ impl Root {
 
                         impl ::std::fmt::Display for #root_name {
                             fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
-                                self.0.fmt(f)
+                                let val = &self.0;
+                                f.write_str(&#to_literal)
                             }
                         }
                     })
diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index 7df6f3e..7426087 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -54,6 +54,56 @@ pub fn decode(input: &str) -> Result<Document<'_>, FromXmlError> {
     Ok(Document(doc))
 }
 
+fn trim(val: &str) -> &str {
+    val.trim_matches([' ', '\t', '\n', '\r'])
+}
+
+/// Convert an XSD integer literal into a literal of Rust's integers.
+pub fn integer(val: &str) -> &str {
+    trim(val)
+}
+
+/// Convert an XSD integer literal into a literal of Rust's unsigned integers.
+pub fn unsigned(val: &str) -> &str {
+    let val = trim(val);
+    match val.strip_prefix('-') {
+        Some(zero) if !zero.is_empty() && zero.chars().all(|c| c == '0') => zero,
+        _ => val,
+    }
+}
+
+/// Convert an XSD boolean literal into a literal of Rust's [bool].
+pub fn boolean(val: &str) -> &str {
+    match trim(val) {
+        "1" => "true",
+        "0" => "false",
+        val => val,
+    }
+}
+
+/// Convert an XSD decimal literal into a literal of `rust_decimal::Decimal`.
+pub fn decimal(val: &str) -> &str {
+    let val = trim(val);
+    // digit separators are not part of the XSD syntax
+    if val.contains('_') {
+        "_"
+    } else {
+        val
+    }
+}
+
+/// Convert an XSD float literal into a literal of Rust's floats.
+pub fn float(val: &str) -> &str {
+    match trim(val) {
+        "INF" => "inf",
+        "-INF" => "-inf",
+        "NaN" => "NaN",
+        // spelled out in any other way, the special values are not part of the XSD syntax
+        val if val.contains(|c: char| c.is_alphabetic() && !matches!(c, 'e' | 'E')) => "_",
+        val => val,
+    }
+}
+
 fn has_name(node: &roxmltree::Node<'_, '_>, name: &str, namespace: Option<&str>) -> bool {
     let tag_name = node.tag_name();
     // an undeclared default namespace (`xmlns=""`) is reported as an empty namespace
diff --git a/xsd/src/lib.rs b/xsd/src/lib.rs
index 26a2b19..554107c 100644
--- a/xsd/src/lib.rs
+++ b/xsd/src/lib.rs
@@ -13,6 +13,15 @@ use xml::name::Name;
 use xml::namespace::{Namespace, NS_NO_PREFIX};
 use xml::writer::events::XmlEvent;
 
+/// The XSD literal of a float.
+pub fn float_to_string(val: &f32) -> String {
+    if val.is_infinite() {
+        String::from(if *val > 0.0 { "INF" } else { "-INF" })
+    } else {
+        val.to_string()
+    }
+}
+
 /// Write the text content of an element.
 pub fn write_text<W: std::io::Write>(
     writer: &mut ::xml::writer::EventWriter<W>,
-- 
2.43.0


From 8d05ffeb8db890c6ac7be14056baedf1e339a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:57 +0000
Subject: [PATCH 15/30] fix: look past required groups that may be empty

---
 xsd-internal/src/ast/root.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index c4619f7..782870a 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -362,7 +362,8 @@ impl Root {
                         if *prev_required {
                             return None;
                         }
-                        *prev_required = !leaf.is_optional() && !leaf.is_unordered;
+                        *prev_required =
+                            !leaf.is_unordered && !is_nullable(leaf, ctx, &mut Vec::new());
 
                         if leaf.is_virtual {
                             let name = if let LeafContent::Named(name) = &leaf.definition.content {
@@ -425,6 +426,35 @@ impl Root {
     }
 }
 
+/// Whether a document might not contain any element for the leaf.
+fn is_nullable<'a>(leaf: &'a Leaf, ctx: &'a SchemaContext, visited: &mut Vec<&'a Name>) -> bool {
+    if leaf.is_optional() {
+        return true;
+    }
+    match &leaf.definition.content {
+        LeafContent::Named(name) if leaf.is_virtual && !visited.contains(&name) => {
+            visited.push(name);
+            let result = match ctx.elements.get(name) {
+                Some(Root::Element(def)) => match &def.content {
+                    Some(ElementContent::Leaves(leaves)) => {
+                        leaves.iter().all(|leaf| is_nullable(leaf, ctx, visited))
+                    }
+                    Some(ElementContent::Leaf(..)) => false,
+                    None => true,
+                },
+                Some(Root::Choice(def)) => def
+                    .variants
+                    .iter()
+                    .any(|leaf| is_nullable(leaf, ctx, visited)),
+                _ => false,
+            };
+            visited.pop();
+            result
+        }
+        _ => false,
+    }
+}
+
 fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
     let mut unknown_count = 0;
     let mut enum_names = HashMap::with_capacity(names.len());
-- 
2.43.0


From 979daf33b35860e0f296559cca89334ae07e3aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:20 +0000
Subject: [PATCH 16/30] fix: honour the form attribute of local elements

---
 xsd-internal/src/xsd/parse/element.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index 3f8fbf4..db051f0 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -1,7 +1,7 @@
 use std::str::FromStr;
 
 use crate::ast::{
-    Leaf, LeafContent, LeafDefinition, LiteralType, MaxOccurs, MinOccurs, Name, Root,
+    Leaf, LeafContent, LeafDefinition, LiteralType, MaxOccurs, MinOccurs, Name, Namespace, Root,
 };
 use crate::xsd::context::{Context, NS_XSD};
 use crate::xsd::error::XsdError;
@@ -99,14 +99,27 @@ where
         }
     }
 
-    let name = ctx.get_node_name(&node.try_attribute("name")?.value(), false);
+    let mut name = ctx.get_node_name(&node.try_attribute("name")?.value(), false);
+
+    // `form` takes precedence over the `elementFormDefault` of the schema
+    if let Some(attr) = node.attribute("form") {
+        name.namespace = match attr.value().as_ref() {
+            "qualified" => ctx.target_namespace(),
+            "unqualified" => Namespace::None,
+            value => {
+                return Err(XsdError::UnsupportedAttributeValue {
+                    name: "form".to_string(),
+                    value: value.to_string(),
+                    element: node.name().to_string(),
+                    range: attr.range(),
+                })
+            }
+        };
+    }
 
     // mark `default` attribute as visited
     node.attribute("default");
 
-    // TODO: implement attribute?
-    node.attribute("form");
-
     let docs = super::parse_annotation(node.child("annotation", Some(NS_XSD)))?;
 
     // <element type="xs:string" /> | <element type="MyCustomType" />
-- 
2.43.0


From d5cd2858cd2145814c624c55bde900af22bfccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:16 +0000
Subject: [PATCH 17/30] fix: do not write a default namespace over elements
 without a namespace

---
 xsd-internal/src/xsd/context.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 7279e45..f24aad3 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -3,7 +3,10 @@ use std::collections::{HashMap, HashSet};
 use super::error::XsdError;
 use super::node::Attribute;
 use super::schema::Schema;
-use crate::ast::{LeafContent, LeafDefinition, LiteralType, Name, Namespace, Namespaces, Root};
+use crate::ast::{
+    ElementContent, ElementDefinition, LeafContent, LeafDefinition, LiteralType, Name, Namespace,
+    Namespaces, Root,
+};
 use proc_macro2::TokenStream;
 use quote::quote;
 
@@ -73,11 +76,17 @@ impl<'input> Context<'input> {
     }
 
     pub fn into_schema(self) -> Schema {
+        // elements without a namespace can only be written if there is no default namespace
+        let is_qualified = self.is_qualified
+            && !self
+                .roots
+                .iter()
+                .any(|(name, root)| has_unqualified_elements(name, root));
         Schema {
             context: SchemaContext {
                 target_namespace: self.target_namespace(),
                 elements: self.roots,
-                is_qualified: self.is_qualified,
+                is_qualified,
                 namespaces: self.shared.namespaces,
             },
             dependencies: self.shared.dependencies,
@@ -192,6 +201,21 @@ impl SchemaContext {
     }
 }
 
+fn has_unqualified_elements(name: &Name, root: &Root) -> bool {
+    let leaves = match root {
+        Root::Element(ElementDefinition {
+            content: Some(ElementContent::Leaves(leaves)),
+            ..
+        }) => leaves.as_slice(),
+        Root::Choice(def) => def.variants.as_slice(),
+        _ => &[],
+    };
+    name.namespace == Namespace::None
+        || leaves
+            .iter()
+            .any(|leaf| !leaf.is_virtual && leaf.name.namespace == Namespace::None)
+}
+
 fn literal_from_str(literal: &str) -> Option<LiteralType> {
     Some(match literal {
         "string" => LiteralType::String,
-- 
2.43.0


From e30ef180d4563fb17eb82635884ecf66ccbe3177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:20 +0000
Subject: [PATCH 18/30] fix: load every included schema file once, also when
 includes are circular

---
 xsd-internal/src/xsd/context.rs |  8 ++++++
 xsd-internal/src/xsd/schema.rs  | 46 +++++++++++++++++++++++----------
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index f24aad3..7b32afc 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -1,4 +1,5 @@
 use std::collections::{HashMap, HashSet};
+use std::path::{Path, PathBuf};
 
 use super::error::XsdError;
 use super::node::Attribute;
@@ -27,6 +28,8 @@ pub struct SharedContext {
     pub namespaces: Namespaces,
     /// Dependencies between structs. Key = parent, Value = child
     pub dependencies: HashMap<Name, HashSet<Name>>,
+    /// The schema files that are already loaded.
+    pub files: HashSet<PathBuf>,
 }
 
 /// The context reduced to the data necessary for the code-generation.
@@ -71,6 +74,10 @@ impl<'input> Context<'input> {
         self.shared = shared
     }
 
+    pub fn is_loaded(&self, file: &Path) -> bool {
+        self.shared.files.contains(file)
+    }
+
     pub fn add_root(&mut self, name: Name, root: Root) {
         self.roots.insert(name, root);
     }
@@ -90,6 +97,7 @@ impl<'input> Context<'input> {
                 namespaces: self.shared.namespaces,
             },
             dependencies: self.shared.dependencies,
+            files: self.shared.files,
         }
     }
 
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index 7ea4eae..17ff548 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -2,7 +2,10 @@ use std::collections::HashSet;
 use std::fs::read_to_string;
 use std::io;
 use std::ops::Range;
-use std::{collections::HashMap, path::Path};
+use std::{
+    collections::HashMap,
+    path::{Path, PathBuf},
+};
 
 use super::context::{Context, SchemaContext, SharedContext, NS_XSD};
 use super::error::XsdError;
@@ -17,6 +20,7 @@ use roxmltree::{Document, TextPos};
 #[derive(Debug)]
 pub struct Schema {
     pub(crate) dependencies: HashMap<Name, HashSet<Name>>,
+    pub(crate) files: HashSet<PathBuf>,
     pub(crate) context: SchemaContext,
 }
 
@@ -67,20 +71,25 @@ impl Schema {
             }
         };
 
+        let mut shared = shared.unwrap_or_default();
+        shared.files.insert(file_id(&path));
+
         let base_path = path.parent().unwrap_or(path.as_path());
         let root_node = doc.root_element().into();
-        Schema::parse_schema_with_context(&root_node, base_path, shared).map_err(|err| match err {
-            ParseError::Schema(err) => err,
-            ParseError::Xsd(err) => {
-                let pos = err
-                    .range()
-                    .map(|range| doc.text_pos_at(range.start))
-                    .unwrap_or_else(|| TextPos { row: 0, col: 0 });
-                SchemaError::Xsd {
-                    file: path.to_string_lossy().to_string(),
-                    row: pos.row,
-                    col: pos.col,
-                    err: Box::new(err),
+        Schema::parse_schema_with_context(&root_node, base_path, Some(shared)).map_err(|err| {
+            match err {
+                ParseError::Schema(err) => err,
+                ParseError::Xsd(err) => {
+                    let pos = err
+                        .range()
+                        .map(|range| doc.text_pos_at(range.start))
+                        .unwrap_or_else(|| TextPos { row: 0, col: 0 });
+                    SchemaError::Xsd {
+                        file: path.to_string_lossy().to_string(),
+                        row: pos.row,
+                        col: pos.col,
+                        err: Box::new(err),
+                    }
                 }
             }
         })
@@ -112,13 +121,17 @@ impl Schema {
         );
 
         for child in root.children().namespace(NS_XSD).iter() {
-            // TODO: prevent circular includes
             if child.name() == "include" || child.name() == "import" {
                 // TODO: make sure that it is a relative path
                 let location: &str = &child.try_attribute("schemaLocation")?.value();
                 let mut path = base_path.to_path_buf();
                 path.push(location);
 
+                // each file is only loaded once, which also ends circular includes
+                if ctx.is_loaded(&file_id(&path)) {
+                    continue;
+                }
+
                 // merge imports
                 let mut schema = Schema::parse_file_with_context(path, Some(ctx.take_shared()))?;
                 for (name, root) in std::mem::take(&mut schema.context.elements) {
@@ -142,6 +155,7 @@ impl Schema {
         SharedContext {
             namespaces: self.context.namespaces,
             dependencies: self.dependencies,
+            files: self.files,
         }
     }
 
@@ -324,6 +338,10 @@ impl Schema {
     }
 }
 
+fn file_id(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| path.to_path_buf())
+}
+
 #[derive(Debug, thiserror::Error)]
 pub enum SchemaError {
     #[error("Error on line {row} (offset {col} in {file}): {err}")]
-- 
2.43.0


From 0149182e679bc227668ffefe442dbf6a23e67cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:53 +0000
Subject: [PATCH 19/30] fix: reject schemas that define the same name more than
 once

---
 xsd-internal/src/xsd/context.rs               | 21 +++++++++++++++++--
 xsd-internal/src/xsd/error.rs                 |  3 +++
 xsd-internal/src/xsd/parse/attribute.rs       |  2 +-
 xsd-internal/src/xsd/parse/choice.rs          |  4 +++-
 xsd-internal/src/xsd/parse/complex_content.rs |  4 +++-
 xsd-internal/src/xsd/parse/complex_type.rs    |  8 +++++--
 xsd-internal/src/xsd/parse/element.rs         |  3 ++-
 xsd-internal/src/xsd/parse/sequence.rs        |  8 +++++--
 xsd-internal/src/xsd/schema.rs                |  5 +++--
 9 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 7b32afc..780b74b 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -1,4 +1,6 @@
+use std::collections::hash_map::Entry;
 use std::collections::{HashMap, HashSet};
+use std::ops::Range;
 use std::path::{Path, PathBuf};
 
 use super::error::XsdError;
@@ -78,8 +80,23 @@ impl<'input> Context<'input> {
         self.shared.files.contains(file)
     }
 
-    pub fn add_root(&mut self, name: Name, root: Root) {
-        self.roots.insert(name, root);
+    /// Adds a definition, `range` being the position of its declaration.
+    pub fn add_root(
+        &mut self,
+        name: Name,
+        root: Root,
+        range: Range<usize>,
+    ) -> Result<(), XsdError> {
+        match self.roots.entry(name) {
+            Entry::Occupied(entry) => Err(XsdError::DuplicateDefinition {
+                name: entry.key().name.clone(),
+                range,
+            }),
+            Entry::Vacant(entry) => {
+                entry.insert(root);
+                Ok(())
+            }
+        }
     }
 
     pub fn into_schema(self) -> Schema {
diff --git a/xsd-internal/src/xsd/error.rs b/xsd-internal/src/xsd/error.rs
index 786cbe5..1906b87 100644
--- a/xsd-internal/src/xsd/error.rs
+++ b/xsd-internal/src/xsd/error.rs
@@ -49,6 +49,8 @@ pub enum XsdError {
         err: rust_decimal::Error,
         range: Range<usize>,
     },
+    #[error("Multiple definitions found for `{name}`")]
+    DuplicateDefinition { name: String, range: Range<usize> },
     #[error("Unsupported XSD type {name}")]
     UnsupportedType { name: String, range: Range<usize> },
 }
@@ -68,6 +70,7 @@ impl XsdError {
             // XsdError::MultipleTypes { range, .. } => Some(range),
             XsdError::ParseInt { range, .. } => Some(range),
             XsdError::ParseDecimal { range, .. } => Some(range),
+            XsdError::DuplicateDefinition { range, .. } => Some(range),
             XsdError::UnsupportedType { range, .. } => Some(range),
         }
     }
diff --git a/xsd-internal/src/xsd/parse/attribute.rs b/xsd-internal/src/xsd/parse/attribute.rs
index 854ca80..7e02c22 100644
--- a/xsd-internal/src/xsd/parse/attribute.rs
+++ b/xsd-internal/src/xsd/parse/attribute.rs
@@ -32,7 +32,7 @@ where
                 ctx,
                 false,
             );
-            ctx.add_root(virtual_name.clone(), root);
+            ctx.add_root(virtual_name.clone(), root, node.range())?;
             ctx.discover_type(&virtual_name, Some(parent));
 
             LeafContent::Named(virtual_name)
diff --git a/xsd-internal/src/xsd/parse/choice.rs b/xsd-internal/src/xsd/parse/choice.rs
index 0d71c10..5d61cb2 100644
--- a/xsd-internal/src/xsd/parse/choice.rs
+++ b/xsd-internal/src/xsd/parse/choice.rs
@@ -26,6 +26,7 @@ where
                 let min_occurs = parse_min_occurs(child.attribute("minOccurs"))?;
                 let max_occurs = parse_max_occurs(child.attribute("maxOccurs"))?;
 
+                let range = child.range();
                 let leaves = super::sequence::parse(child, parent, ctx)?;
                 let leaf_name =
                     super::derive_virtual_name(leaves.iter().map(|v| &v.name), ctx, true);
@@ -43,7 +44,8 @@ where
                         is_virtual: true,
                         docs: None,
                     }),
-                );
+                    range,
+                )?;
                 ctx.discover_type(&root_name, Some(parent));
 
                 Leaf {
diff --git a/xsd-internal/src/xsd/parse/complex_content.rs b/xsd-internal/src/xsd/parse/complex_content.rs
index 79640e2..9bf4a80 100644
--- a/xsd-internal/src/xsd/parse/complex_content.rs
+++ b/xsd-internal/src/xsd/parse/complex_content.rs
@@ -45,6 +45,7 @@ where
     if let Some(child) = children.remove("sequence", Some(NS_XSD)) {
         let min_occurs = parse_min_occurs(child.attribute("minOccurs"))?;
 
+        let range = child.range();
         let leaves = super::sequence::parse(child, parent, ctx)?;
         let leaf_name = ctx.get_node_name(&base_name.name, false);
         let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
@@ -57,7 +58,8 @@ where
                 is_virtual: true,
                 docs: None,
             }),
-        );
+            range,
+        )?;
         ctx.discover_type(&root_name, Some(parent));
 
         virtual_leaves.push(Leaf {
diff --git a/xsd-internal/src/xsd/parse/complex_type.rs b/xsd-internal/src/xsd/parse/complex_type.rs
index 79dc547..c17f166 100644
--- a/xsd-internal/src/xsd/parse/complex_type.rs
+++ b/xsd-internal/src/xsd/parse/complex_type.rs
@@ -51,6 +51,7 @@ where
         let is_unordered = child.name() == "all";
         let min_occurs = parse_min_occurs(child.attribute("minOccurs"))?;
         let max_occurs = parse_max_occurs(child.attribute("maxOccurs"))?;
+        let range = child.range();
         let mut leaves = super::sequence::parse(child, parent, ctx)?;
         if is_unordered {
             for leaf in &mut leaves {
@@ -70,7 +71,8 @@ where
                     is_virtual: true,
                     docs: None,
                 }),
-            );
+                range,
+            )?;
             ctx.discover_type(&root_name, Some(parent));
 
             Some(ElementContent::Leaves(vec![Leaf {
@@ -89,6 +91,7 @@ where
             Some(ElementContent::Leaves(leaves))
         }
     } else if let Some(child) = children.remove("choice", Some(NS_XSD)) {
+        let range = child.range();
         let variants = super::choice::parse(child, parent, ctx)?;
         let root_name =
             super::derive_virtual_name(vec![parent, &ctx.get_node_name("Data", false)], ctx, false);
@@ -100,7 +103,8 @@ where
                 is_virtual: false,
                 docs: None,
             }),
-        );
+            range,
+        )?;
         ctx.discover_type(&root_name, Some(parent));
 
         Some(ElementContent::Leaf(
diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index db051f0..5226008 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -177,8 +177,9 @@ where
             false,
         );
 
+        let range = node.range();
         let root = super::root::parse(node, &virtual_name, ctx)?;
-        ctx.add_root(virtual_name.clone(), root);
+        ctx.add_root(virtual_name.clone(), root, range)?;
         ctx.discover_type(&virtual_name, Some(parent));
 
         Ok(Leaf {
diff --git a/xsd-internal/src/xsd/parse/sequence.rs b/xsd-internal/src/xsd/parse/sequence.rs
index e9e4fde..07f4f5c 100644
--- a/xsd-internal/src/xsd/parse/sequence.rs
+++ b/xsd-internal/src/xsd/parse/sequence.rs
@@ -27,6 +27,7 @@ where
                 let min_occurs = parse_min_occurs(child.attribute("minOccurs"))?;
                 let max_occurs = parse_max_occurs(child.attribute("maxOccurs"))?;
 
+                let range = child.range();
                 let variants = super::choice::parse(child, parent, ctx)?;
                 let leaf_name =
                     super::derive_virtual_name(variants.iter().map(|v| &v.name), ctx, true);
@@ -39,7 +40,8 @@ where
                         is_virtual: true,
                         docs: None,
                     }),
-                );
+                    range,
+                )?;
                 ctx.discover_type(&root_name, Some(parent));
 
                 Leaf {
@@ -60,6 +62,7 @@ where
 
                 let min_occurs = parse_min_occurs(child.attribute("minOccurs"))?;
 
+                let range = child.range();
                 let leaves = parse(child, parent, ctx)?;
                 let leaf_name =
                     super::derive_virtual_name(leaves.iter().map(|v| &v.name), ctx, true);
@@ -73,7 +76,8 @@ where
                         is_virtual: true,
                         docs: None,
                     }),
-                );
+                    range,
+                )?;
                 ctx.discover_type(&root_name, Some(parent));
 
                 Leaf {
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index 17ff548..086631c 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -135,7 +135,7 @@ impl Schema {
                 // merge imports
                 let mut schema = Schema::parse_file_with_context(path, Some(ctx.take_shared()))?;
                 for (name, root) in std::mem::take(&mut schema.context.elements) {
-                    ctx.add_root(name, root);
+                    ctx.add_root(name, root, child.range())?;
                 }
                 ctx.set_shared(schema.into_shared());
 
@@ -144,8 +144,9 @@ impl Schema {
 
             let name = Name::new(child.try_attribute("name")?.value(), ctx.target_namespace());
 
+            let range = child.range();
             let root = crate::xsd::parse::root::parse(child, &name, &mut ctx)?;
-            ctx.add_root(name, root);
+            ctx.add_root(name, root, range)?;
         }
 
         Ok(ctx.into_schema())
-- 
2.43.0


From 37f494923be43c0f336b351c2a2e0c70072ff474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:58 +0000
Subject: [PATCH 20/30] fix: reject types that are defined in terms of
 themselves

---
 xsd-internal/src/xsd/context.rs | 16 ++++++++++++++++
 xsd-internal/src/xsd/error.rs   |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 780b74b..9214de6 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -87,6 +87,22 @@ impl<'input> Context<'input> {
         root: Root,
         range: Range<usize>,
     ) -> Result<(), XsdError> {
+        // a type must not be defined in terms of itself
+        let mut next = Some(&root);
+        while let Some(Root::Leaf(LeafDefinition {
+            content: LeafContent::Named(alias),
+            ..
+        })) = next
+        {
+            if alias == &name {
+                return Err(XsdError::CircularDefinition {
+                    name: name.name,
+                    range,
+                });
+            }
+            next = self.roots.get(alias);
+        }
+
         match self.roots.entry(name) {
             Entry::Occupied(entry) => Err(XsdError::DuplicateDefinition {
                 name: entry.key().name.clone(),
diff --git a/xsd-internal/src/xsd/error.rs b/xsd-internal/src/xsd/error.rs
index 1906b87..d6fac63 100644
--- a/xsd-internal/src/xsd/error.rs
+++ b/xsd-internal/src/xsd/error.rs
@@ -51,6 +51,8 @@ pub enum XsdError {
     },
     #[error("Multiple definitions found for `{name}`")]
     DuplicateDefinition { name: String, range: Range<usize> },
+    #[error("The definition of `{name}` refers to itself")]
+    CircularDefinition { name: String, range: Range<usize> },
     #[error("Unsupported XSD type {name}")]
     UnsupportedType { name: String, range: Range<usize> },
 }
@@ -71,6 +73,7 @@ impl XsdError {
             XsdError::ParseInt { range, .. } => Some(range),
             XsdError::ParseDecimal { range, .. } => Some(range),
             XsdError::DuplicateDefinition { range, .. } => Some(range),
+            XsdError::CircularDefinition { range, .. } => Some(range),
             XsdError::UnsupportedType { range, .. } => Some(range),
         }
     }
-- 
2.43.0


From 74f215041d668f7c1a8dc23451d18c8462b92fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:02 +0000
Subject: [PATCH 21/30] fix: derive names from element names that start with a
 non-ASCII letter

---
 xsd-internal/src/xsd/parse/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/mod.rs b/xsd-internal/src/xsd/parse/mod.rs
index 694107a..eecb47b 100644
--- a/xsd-internal/src/xsd/parse/mod.rs
+++ b/xsd-internal/src/xsd/parse/mod.rs
@@ -47,9 +47,10 @@ where
 
     let mut virtual_name = String::new();
     for name in names.into_iter() {
-        if !name.name.is_empty() {
-            virtual_name += name.name[0..1].to_ascii_uppercase().as_str();
-            virtual_name += &name.name[1..];
+        let mut chars = name.name.chars();
+        if let Some(first) = chars.next() {
+            virtual_name.push(first.to_ascii_uppercase());
+            virtual_name += chars.as_str();
         }
     }
 
-- 
2.43.0


From cd0d501703e1e26a1d82f588f1bdb6a618df4372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:06 +0000
Subject: [PATCH 22/30] fix: reject mixed content in all its spellings

---
 xsd-internal/src/xsd/parse/complex_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/complex_type.rs b/xsd-internal/src/xsd/parse/complex_type.rs
index c17f166..62718ad 100644
--- a/xsd-internal/src/xsd/parse/complex_type.rs
+++ b/xsd-internal/src/xsd/parse/complex_type.rs
@@ -16,10 +16,10 @@ pub fn parse<'a, 'input>(
 where
     'a: 'input,
 {
-    if node.attribute("mixed").map(|a| a.value()).as_deref() == Some("true") {
+    if let Some(value @ ("true" | "1")) = node.attribute("mixed").map(|a| a.value()).as_deref() {
         return Err(XsdError::UnsupportedAttributeValue {
             name: "mixed".to_string(),
-            value: "true".to_string(),
+            value: value.to_string(),
             element: node.name().to_string(),
             range: node.range(),
         });
-- 
2.43.0


From 61554f737a9d4df54c9a69163db6e3b0eee61582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:10 +0000
Subject: [PATCH 23/30] fix: do not mistake foreign attributes for those of the
 schema

---
 xsd-internal/src/xsd/node.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index 211ed72..4cc597c 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -66,9 +66,9 @@ impl<'a, 'input> From<roxmltree::Node<'a, 'input>> for Node<'a, 'input> {
         // TODO: throw on non XSD namespace children/attributes instead of ignoring them?
         let attributes = node
             .attributes()
+            // ignore custom (aka namespaced) attributes
+            .filter(|attr| attr.namespace().is_none())
             .map(|attr| {
-                // let ns = attr.namespace();
-                // TODO: filter by XSD attributes?
                 (
                     attr.name(),
                     Attribute {
@@ -173,8 +173,7 @@ impl<'a, 'input> Node<'a, 'input> {
 
     pub fn prevent_unvisited_attributes(&self) -> Result<(), NodeError> {
         for (name, attr) in self.attributes.iter() {
-            // ignore custom (aka namespaced) attributes
-            if attr.namespace().is_none() && !attr.visited.get() {
+            if !attr.visited.get() {
                 return Err(NodeError::UnsupportedAttribute {
                     name: name.to_string(),
                     element: self.name().to_string(),
-- 
2.43.0


From a7ccb1c06fd04e765e067d6cf0270aaace1d0da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:43 +0000
Subject: [PATCH 24/30] fix: allow an enumeration value named Err

---
 xsd-internal/src/ast/root.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 782870a..a7cac60 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -112,7 +112,7 @@ impl Root {
                     impl ::std::str::FromStr for #root_name {
                         type Err = ::xsd::decode::FromXmlError;
 
-                        fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> {
+                        fn from_str(s: &str) -> ::std::result::Result<Self, ::xsd::decode::FromXmlError> {
                             ::std::result::Result::Ok(match s {
                                 #(#from_str_variants,)*
                                 _ => return ::std::result::Result::Err(::xsd::decode::FromXmlError::InvalidVariant {
-- 
2.43.0


From 7b50341de4e6038c4e20afea35c49e4001521b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:46 +0000
Subject: [PATCH 25/30] fix: keep enumeration values apart whose names only
 differ in escaped characters

---
 xsd-internal/src/ast/root.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index a7cac60..053b264 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -484,6 +484,9 @@ fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
         {
             variant_name = format!("V{}", variant_name);
         }
+        if !variant_name.is_empty() {
+            variant_name = escape_ident(&variant_name).to_string();
+        }
 
         loop {
             if variant_name.is_empty() || enum_names.contains_key(&variant_name) {
-- 
2.43.0


From 6b032cd1f9a38037a3e4cb06d3f86cd407a9bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:57 +0000
Subject: [PATCH 26/30] fix: report unsupported children of local elements

The children of local elements that have a type, or refer to a global
element, were not looked at, so that e.g. a contradicting inline type was
silently ignored instead of being reported as it is for global elements.
---
 xsd-internal/src/xsd/parse/element.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index 5226008..8e50f29 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -74,6 +74,11 @@ where
     // <element ref="other:Type" />
     if let Some(attr) = node.attribute("ref") {
         node.prevent_unvisited_attributes()?;
+
+        let mut children = node.children().namespace(NS_XSD).collect();
+        super::parse_annotation(children.remove("annotation", Some(NS_XSD)))?;
+        children.prevent_unvisited_children()?;
+
         if let LeafContent::Named(name) = ctx.get_type_name(attr)? {
             ctx.discover_type(&name, Some(parent));
 
@@ -120,7 +125,8 @@ where
     // mark `default` attribute as visited
     node.attribute("default");
 
-    let docs = super::parse_annotation(node.child("annotation", Some(NS_XSD)))?;
+    let mut children = node.children().namespace(NS_XSD).collect();
+    let docs = super::parse_annotation(children.remove("annotation", Some(NS_XSD)))?;
 
     // <element type="xs:string" /> | <element type="MyCustomType" />
     if let Some(attr) = node.attribute("type") {
@@ -136,6 +142,7 @@ where
         }
 
         node.prevent_unvisited_attributes()?;
+        children.prevent_unvisited_children()?;
 
         Ok(Leaf {
             name,
@@ -153,6 +160,7 @@ where
         && node.child("complexType", Some(NS_XSD)).is_none()
     {
         node.prevent_unvisited_attributes()?;
+        children.prevent_unvisited_children()?;
 
         // TODO: add test for that case
         Ok(Leaf {
-- 
2.43.0


From 034275cb65861b61582db0fb610fdea8364bdb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:01 +0000
Subject: [PATCH 27/30] fix: refuse attributes that are qualified by default

The attributes of a schema with attributeFormDefault="qualified" belong
to its target namespace, but were read and written without one. Report
them like other unsupported values, as namespaced attributes are not
supported.
---
 xsd-internal/src/xsd/context.rs         |  6 ++++++
 xsd-internal/src/xsd/parse/attribute.rs | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 9214de6..3edb74c 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -21,6 +21,7 @@ pub struct Context<'input> {
     target_namespace: Namespace,
     document_namespaces: HashMap<&'input str, &'input str>,
     is_qualified: bool,
+    is_attribute_qualified: bool,
     shared: SharedContext,
 }
 
@@ -65,6 +66,7 @@ impl<'input> Context<'input> {
                 .unwrap_or_default(),
             document_namespaces,
             is_qualified: schema.attribute("elementFormDefault") == Some("qualified"),
+            is_attribute_qualified: schema.attribute("attributeFormDefault") == Some("qualified"),
             shared,
         }
     }
@@ -134,6 +136,10 @@ impl<'input> Context<'input> {
         }
     }
 
+    pub fn is_attribute_qualified(&self) -> bool {
+        self.is_attribute_qualified && self.target_namespace != Namespace::None
+    }
+
     pub fn discover_type(&mut self, name: &Name, parent: Option<&Name>) {
         if let Some(parent) = parent {
             let dependends = self.shared.dependencies.entry(parent.clone()).or_default();
diff --git a/xsd-internal/src/xsd/parse/attribute.rs b/xsd-internal/src/xsd/parse/attribute.rs
index 7e02c22..f84af74 100644
--- a/xsd-internal/src/xsd/parse/attribute.rs
+++ b/xsd-internal/src/xsd/parse/attribute.rs
@@ -13,6 +13,16 @@ where
 {
     let name = Name::new(node.try_attribute("name")?.value(), Namespace::None);
 
+    // namespaced attributes are not supported
+    if ctx.is_attribute_qualified() {
+        return Err(XsdError::UnsupportedAttributeValue {
+            name: "attributeFormDefault".to_string(),
+            value: "qualified".to_string(),
+            element: "schema".to_string(),
+            range: node.range(),
+        });
+    }
+
     let mut children = node.children().namespace(NS_XSD).collect();
     let docs = super::parse_annotation(children.remove("annotation", Some(NS_XSD)))?;
 
-- 
2.43.0


From 53b1279587c6edf8f4e7de6affb419ccec6ef703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:00 +0000
Subject: [PATCH 28/30] fix: keep inner attributes inside the annotated module

---
 xsd-derive/src/generator.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xsd-derive/src/generator.rs b/xsd-derive/src/generator.rs
index ad653fa..d6f8260 100644
--- a/xsd-derive/src/generator.rs
+++ b/xsd-derive/src/generator.rs
@@ -8,7 +8,10 @@ pub fn generate(item: &syn::ItemMod, path: impl AsRef<Path>) -> Result<TokenStre
     let schema = Schema::parse_file(path)?;
     let structs = schema.generate_all()?;
 
-    let attrs = &item.attrs;
+    let (inner_attrs, outer_attrs): (Vec<_>, Vec<_>) = item
+        .attrs
+        .iter()
+        .partition(|attr| matches!(attr.style, syn::AttrStyle::Inner(_)));
     let vis = &item.vis;
     let ident = &item.ident;
     let items = item
@@ -18,8 +21,10 @@ pub fn generate(item: &syn::ItemMod, path: impl AsRef<Path>) -> Result<TokenStre
         .unwrap_or_default();
 
     let result = quote! {
-        #(#attrs)*
+        #(#outer_attrs)*
         #vis mod #ident {
+            #(#inner_attrs)*
+
             #(#items
             )*
 
-- 
2.43.0


From 11eda39e6347f74b52572dcfaf35faf919cc2649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:47 +0000
Subject: [PATCH 29/30] fix: accept empty documentation and read all of its
 text

---
 xsd-internal/src/xsd/parse/annotation.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/annotation.rs b/xsd-internal/src/xsd/parse/annotation.rs
index e0e6b1a..801605a 100644
--- a/xsd-internal/src/xsd/parse/annotation.rs
+++ b/xsd-internal/src/xsd/parse/annotation.rs
@@ -6,8 +6,14 @@ pub fn parse(node: Node<'_, '_>) -> Result<Option<String>, XsdError> {
     let mut children = node.children().namespace(NS_XSD).collect();
     let docs = children
         .remove("documentation", Some(NS_XSD))
-        .map(|child| child.try_text())
-        .transpose()?
+        .map(|child| {
+            // might be empty, or split by comments and markup
+            child
+                .descendants()
+                .filter(|node| node.is_text())
+                .filter_map(|node| node.text())
+                .collect::<String>()
+        })
         .and_then(|text| {
             if !text.is_empty() {
                 Some(cleanup_docs(&text))
-- 
2.43.0


From a0afa1e4a7d4ff690fd19386736c01c140f51577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:38 +0000
Subject: [PATCH 30/30] fix: name the attribute value looked for in the
 element-not-found error

---
 xsd-internal/src/xsd/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index 4cc597c..1a6f87f 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -16,7 +16,7 @@ pub enum NodeError {
         namespace: Option<String>,
         range: Range<usize>,
     },
-    #[error("Cannot find element for filter: {element_name:?}, {element_namespace:?}, {attribute_name:?}, {attribute_name:?}")]
+    #[error("Cannot find element for filter: {element_name:?}, {element_namespace:?}, {attribute_name:?}, {attribute_value:?}")]
     ElementNotFound {
         element_name: Option<String>,
         element_namespace: Option<String>,
-- 
2.43.0

