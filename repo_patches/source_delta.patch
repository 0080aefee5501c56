From 9b1faf6b35e431aa24d2ad0ca8c1975969e6b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 01/23] fix: align untyped object fields of a struct to a
 pointer

An object slot is a pair of pointers whose alignment is 8, typed object
fields already were treated that way.
---
 idlc_ast/src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idlc_ast/src/ast.rs b/idlc_ast/src/ast.rs
index f9f1ee8..bc57c3c 100644
--- a/idlc_ast/src/ast.rs
+++ b/idlc_ast/src/ast.rs
@@ -218,7 +218,7 @@ impl Type {
 
     #[must_use]
     pub const fn interface_align() -> usize {
-        Self::interface_size()
+        Primitive::Uint64.alignment()
     }
 }
 
-- 
2.43.0


From 6df4b06fa5a230e4a84cc6b8171068a7314a026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 02/23] fix: enumerate every object slot embedded in a struct

Object paths through repeated or array fields were attributed to the wrong
field because parents were looked up by struct value.
---
 idlc_mir/src/mir.rs | 81 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 63 insertions(+), 18 deletions(-)

diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index c72aa59..3f952e3 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -28,7 +28,7 @@ use idlc_ast::Ast;
 pub use idlc_ast::Ident;
 use idlc_ast_passes::idl_store::IDLStore;
 
-use std::collections::{HashMap, VecDeque};
+use std::collections::VecDeque;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 
@@ -186,28 +186,33 @@ impl StructInner {
         self.fields.iter().fold(0, |acc, e| acc + e.size())
     }
 
-    pub fn objects(&self) -> Vec<(Vec<&Ident>, Option<&str>)> {
+    /// Every object slot embedded in this struct, level by level.
+    ///
+    /// Each slot is a path of fields; array fields contribute one slot per
+    /// element and carry the index of that element in the path.
+    pub fn object_paths(&self) -> Vec<(Vec<(&Ident, Option<u16>)>, Option<&str>)> {
         let mut queue = VecDeque::new();
-        let mut parents = HashMap::new();
         let mut objects = Vec::new();
-        queue.push_back(self);
+        queue.push_back((self, Vec::new()));
 
-        while let Some(node) = queue.pop_front() {
+        while let Some((node, prefix)) = queue.pop_front() {
             for field in &node.fields {
-                let (ty, _) = &field.val;
+                let (ty, count) = &field.val;
                 if let Type::Struct(s) = ty {
-                    parents.insert(s.as_ref(), (node, Some(&field.ident)));
-                    queue.push_back(s.as_ref());
-                } else if let Type::Interface(interface) = ty {
-                    // Reconstruct path information.
-                    let mut path = vec![&field.ident];
-                    let mut current = node;
-                    while let Some((parent, Some(parent_ident))) = parents.get(current) {
-                        path.push(*parent_ident);
-                        current = parent;
+                    if !s.as_ref().contains_interfaces() {
+                        continue;
+                    }
+                } else if !matches!(ty, Type::Interface(_)) {
+                    continue;
+                }
+                for i in 0..count.get() {
+                    let mut path: Vec<(&Ident, Option<u16>)> = prefix.clone();
+                    path.push((&field.ident, (count.get() > 1).then_some(i)));
+                    match ty {
+                        Type::Struct(s) => queue.push_back((s.as_ref(), path)),
+                        Type::Interface(interface) => objects.push((path, interface.as_deref())),
+                        _ => unreachable!(),
                     }
-                    path.reverse();
-                    objects.push((path, interface.as_deref()));
                 }
             }
         }
@@ -215,8 +220,48 @@ impl StructInner {
         objects
     }
 
+    pub fn objects(&self) -> Vec<(Vec<&Ident>, Option<&str>)> {
+        self.object_paths()
+            .into_iter()
+            .map(|(path, ty)| (path.into_iter().map(|(ident, _)| ident).collect(), ty))
+            .collect()
+    }
+
+    /// Number of object slots embedded in this struct.
+    pub fn n_objects(&self) -> usize {
+        self.fields
+            .iter()
+            .map(|field| {
+                let (ty, count) = &field.val;
+                let n = match ty {
+                    Type::Struct(s) => s.as_ref().n_objects(),
+                    Type::Interface(_) => 1,
+                    _ => 0,
+                };
+                n.saturating_mul(usize::from(count.get()))
+            })
+            .fold(0, usize::saturating_add)
+    }
+
+    /// Alignment of this struct, that is the one of its most aligned field.
+    pub fn alignment(&self) -> usize {
+        self.fields
+            .iter()
+            .map(|field| match &field.val.0 {
+                Type::Struct(s) => s.as_ref().alignment(),
+                Type::Primitive(p) => p.size(),
+                _ => Primitive::Uint64.size(),
+            })
+            .max()
+            .unwrap_or(1)
+    }
+
     pub fn is_primitive_struct(&self) -> bool {
-        self.objects().is_empty()
+        self.fields.iter().all(|field| match &field.val.0 {
+            Type::Struct(s) => s.as_ref().is_primitive_struct(),
+            Type::Interface(_) => false,
+            _ => true,
+        })
     }
 
     pub fn contains_interfaces(&self) -> bool {
-- 
2.43.0


From 8676382aeb166eb766506b7f748f8448e0e42d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 03/23] fix: emit C declarations before their uses

Structs and interfaces may be declared in any order in the IDL.
---
 idlc_codegen/src/lib.rs             |  1 +
 idlc_codegen/src/order.rs           | 86 +++++++++++++++++++++++++++++
 idlc_codegen_c/src/generator.rs     | 15 ++++-
 idlc_codegen_c/src/interface/mod.rs |  7 ---
 4 files changed, 99 insertions(+), 10 deletions(-)
 create mode 100644 idlc_codegen/src/order.rs

diff --git a/idlc_codegen/src/lib.rs b/idlc_codegen/src/lib.rs
index 43b40af..9bb04af 100644
--- a/idlc_codegen/src/lib.rs
+++ b/idlc_codegen/src/lib.rs
@@ -5,6 +5,7 @@ pub mod counts;
 pub mod documentation;
 pub mod functions;
 pub mod marking;
+pub mod order;
 pub mod serialization;
 
 // TODO: Remove this when we indeed start banning idents matching reserved keywords
diff --git a/idlc_codegen/src/order.rs b/idlc_codegen/src/order.rs
new file mode 100644
index 0000000..c3e5881
--- /dev/null
+++ b/idlc_codegen/src/order.rs
@@ -0,0 +1,86 @@
+// Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
+// SPDX-License-Identifier: BSD-3-Clause
+
+use std::collections::{HashMap, HashSet};
+
+use idlc_mir::{Interface, Mir, Node, StructInner, Type};
+
+/// Nodes of `mir` such that every declaration precedes its uses.
+///
+/// IDLs may declare structs and interfaces in any order, target languages which
+/// need a declaration before its first use can't. Structs come after the structs
+/// they embed and before all of the interfaces, interfaces come after their base.
+/// Declaration order is kept otherwise.
+#[must_use]
+pub fn declaration_order(mir: &Mir) -> Vec<&Node> {
+    let mut structs = HashMap::new();
+    let mut interfaces = HashMap::new();
+    for node in &mir.nodes {
+        match node.as_ref() {
+            Node::Struct(s) => _ = structs.insert(&s.as_ref().ident, node.as_ref()),
+            Node::Interface(i) => _ = interfaces.insert(&i.ident, node.as_ref()),
+            _ => (),
+        }
+    }
+
+    let mut seen = HashSet::new();
+    let mut includes = Vec::new();
+    let mut ordered_structs = Vec::new();
+    let mut ordered_interfaces = Vec::new();
+    for node in &mir.nodes {
+        match node.as_ref() {
+            node @ (Node::Include(_) | Node::Const(_)) => includes.push(node),
+            Node::Struct(s) => visit_struct(s.as_ref(), &structs, &mut seen, &mut ordered_structs),
+            Node::Interface(i) => {
+                visit_interface(i, &interfaces, &mut seen, &mut ordered_interfaces);
+            }
+        }
+    }
+
+    includes
+        .into_iter()
+        .chain(ordered_structs)
+        .chain(ordered_interfaces)
+        .collect()
+}
+
+type NodeMap<'a> = HashMap<&'a idlc_mir::Ident, &'a Node>;
+
+fn visit_struct<'a>(
+    s: &'a StructInner,
+    nodes: &NodeMap<'a>,
+    seen: &mut HashSet<&'a idlc_mir::Ident>,
+    out: &mut Vec<&'a Node>,
+) {
+    // Structs from included files are part of the generated includes.
+    let Some(node) = nodes.get(&s.ident) else {
+        return;
+    };
+    if !seen.insert(&s.ident) {
+        return;
+    }
+    for field in &s.fields {
+        if let Type::Struct(inner) = &field.val.0 {
+            visit_struct(inner.as_ref(), nodes, seen, out);
+        }
+    }
+    out.push(node);
+}
+
+fn visit_interface<'a>(
+    interface: &'a Interface,
+    nodes: &NodeMap<'a>,
+    seen: &mut HashSet<&'a idlc_mir::Ident>,
+    out: &mut Vec<&'a Node>,
+) {
+    let Some(node) = nodes.get(&interface.ident) else {
+        return;
+    };
+    if !seen.insert(&interface.ident) {
+        return;
+    }
+    if let Some(base) = &interface.base {
+        visit_interface(base, nodes, seen, out);
+    }
+    out.push(node);
+}
diff --git a/idlc_codegen_c/src/generator.rs b/idlc_codegen_c/src/generator.rs
index b34dbbb..68ccb4e 100644
--- a/idlc_codegen_c/src/generator.rs
+++ b/idlc_codegen_c/src/generator.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::Node;
 
-use idlc_codegen::MINKIDL_HEADER_COMMENT;
+use idlc_codegen::{order::declaration_order, MINKIDL_HEADER_COMMENT};
 
 use crate::{
     globals::{emit_const, emit_include, emit_struct},
@@ -27,8 +27,17 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
         let mut result = String::new();
         result.push_str(&generate_common());
 
-        for node in &mir.nodes {
-            match node.as_ref() {
+        if !self.is_no_typed_objects {
+            // Methods may refer to interfaces declared later on.
+            for node in &mir.nodes {
+                if let Node::Interface(i) = node.as_ref() {
+                    result.push_str(&format!("typedef Object {};\n", i.ident));
+                }
+            }
+        }
+
+        for node in declaration_order(mir) {
+            match node {
                 Node::Include(i) => {
                     result.push_str(&emit_include(i));
                 }
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index 5e00404..10619f1 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -93,15 +93,8 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
             }
         }
     }
-    let object_defined = if is_no_typed_objects {
-        "".to_string()
-    } else {
-        format!("typedef Object {ident};")
-    };
-
     format!(
         r#"
-{object_defined}
 {constants}
 {errors}
 {op_codes}
-- 
2.43.0


From 3f7941eaaa06b86aa34747f0c257103d47770b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 04/23] fix: marshal struct objects and bundles identically in
 C, C++ and Rust

All backends now lay out the envelope as input buffers, output buffers, input
objects and output objects in declaration order, convey objects embedded in
structs as object arguments with blank slots in the buffers, keep bundles
packed even when a member would be misaligned, and only hand outputs to the
caller when the call succeeded. C++ classes no longer depend on the
declaration order.
---
 idlc_codegen/src/counts.rs                    |  19 ++-
 idlc_codegen/src/functions.rs                 | 101 ++++++++-----
 idlc_codegen/src/serialization.rs             |  32 +++++
 .../src/interface/functions/implementation.rs |  76 +++++-----
 .../src/interface/functions/invoke.rs         | 134 ++++++++++--------
 .../src/interface/functions/serialization.rs  |  55 +++----
 .../src/interface/functions/signature.rs      |  84 ++++++-----
 idlc_codegen_cpp/src/generator.rs             |  19 ++-
 .../src/interface/functions/implementation.rs | 129 ++++++++---------
 .../src/interface/functions/invoke.rs         |  51 ++-----
 .../src/interface/functions/serialization.rs  |  53 +++----
 .../src/interface/functions/signature.rs      |  66 ++++++---
 idlc_codegen_cpp/src/interface/mod.rs         |  26 ++--
 .../src/interface/functions/implementation.rs |  78 +++++-----
 .../src/interface/functions/invoke.rs         |  79 +++++++----
 .../src/interface/functions/serialization.rs  |  34 ++++-
 .../src/interface/functions/signature.rs      |   6 -
 17 files changed, 591 insertions(+), 451 deletions(-)

diff --git a/idlc_codegen/src/counts.rs b/idlc_codegen/src/counts.rs
index 75a25b4..55d427d 100644
--- a/idlc_codegen/src/counts.rs
+++ b/idlc_codegen/src/counts.rs
@@ -9,8 +9,8 @@ pub struct Counter {
     pub input_objects: u8,
     pub output_objects: u8,
     pub output_buffers: u8,
-    pub total_bundled_input: u8,
-    pub total_bundled_output: u8,
+    pub total_bundled_input: usize,
+    pub total_bundled_output: usize,
 
     has_bundled_input: bool,
     has_bundled_output: bool,
@@ -34,15 +34,16 @@ impl super::functions::ParameterVisitor for Counter {
     }
 
     #[inline]
-    fn visit_input_small_struct(&mut self, _: &Ident, _: &StructInner) {
+    fn visit_input_small_struct(&mut self, _: &Ident, s: &StructInner) {
         self.has_bundled_input = true;
         self.total_bundled_input += 1;
+        self.input_objects += u8::try_from(s.n_objects()).unwrap();
     }
 
     #[inline]
     fn visit_input_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.input_buffers += 1;
-        self.input_objects += u8::try_from(s.objects().len()).unwrap();
+        self.input_objects += u8::try_from(s.n_objects()).unwrap();
     }
 
     #[inline]
@@ -71,15 +72,16 @@ impl super::functions::ParameterVisitor for Counter {
         self.total_bundled_output += 1;
     }
     #[inline]
-    fn visit_output_small_struct(&mut self, _: &Ident, _: &StructInner) {
+    fn visit_output_small_struct(&mut self, _: &Ident, s: &StructInner) {
         self.has_bundled_output = true;
         self.total_bundled_output += 1;
+        self.output_objects += u8::try_from(s.n_objects()).unwrap();
     }
 
     #[inline]
     fn visit_output_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.output_buffers += 1;
-        self.output_objects += u8::try_from(s.objects().len()).unwrap();
+        self.output_objects += u8::try_from(s.n_objects()).unwrap();
     }
 
     #[inline]
@@ -108,6 +110,9 @@ impl Counter {
     #[inline]
     #[must_use]
     pub const fn total(&self) -> u32 {
-        (self.input_buffers + self.input_objects + self.output_buffers + self.output_objects) as u32
+        self.input_buffers as u32
+            + self.input_objects as u32
+            + self.output_buffers as u32
+            + self.output_objects as u32
     }
 }
diff --git a/idlc_codegen/src/functions.rs b/idlc_codegen/src/functions.rs
index 313261c..eadcae7 100644
--- a/idlc_codegen/src/functions.rs
+++ b/idlc_codegen/src/functions.rs
@@ -5,6 +5,19 @@ use idlc_mir::{
     Count, Function, Ident, ParamTypeIn, ParamTypeOut, Primitive, Struct, StructInner, Type,
 };
 
+/// Fields leading from a struct parameter to one of its embedded objects.
+pub type ObjectPath<'a> = [(&'a Ident, Option<u16>)];
+
+/// Renders an [`ObjectPath`] as a field access relative to the struct, i.e
+/// `.outer.inner[1]`.
+#[must_use]
+pub fn object_path_to_string(path: &ObjectPath) -> String {
+    path.iter().fold(String::new(), |acc, (ident, idx)| {
+        let idx = idx.map_or_else(String::new, |idx| format!("[{idx}]"));
+        format!("{acc}.{ident}{idx}")
+    })
+}
+
 use crate::serialization::PackedPrimitives;
 
 #[allow(unused)]
@@ -20,6 +33,9 @@ pub trait ParameterVisitor {
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {}
     fn visit_input_object(&mut self, ident: &Ident, ty: Option<&str>) {}
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: Count) {}
+    /// Object embedded in the input struct `ident`, only visited by
+    /// [`visit_params_with_bundling`] and only after all the buffers.
+    fn visit_input_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {}
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {}
     fn visit_output_untyped_buffer(&mut self, ident: &Ident) {
@@ -32,6 +48,9 @@ pub trait ParameterVisitor {
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {}
     fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {}
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: Count) {}
+    /// Object embedded in the output struct `ident`, only visited by
+    /// [`visit_params_with_bundling`] and only after all the buffers.
+    fn visit_output_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {}
 }
 
 #[derive(Debug)]
@@ -39,6 +58,7 @@ enum Param<'a> {
     InputBundledPrimitives(&'a PackedPrimitives),
     OutputBundledPrimitives(&'a PackedPrimitives),
     Params(&'a idlc_mir::Param),
+    StructObjects(&'a idlc_mir::Param, &'a StructInner),
 }
 
 impl<'a> Param<'a> {
@@ -47,6 +67,15 @@ impl<'a> Param<'a> {
             match param {
                 Param::InputBundledPrimitives(b) => visitor.visit_input_bundled(b),
                 Param::OutputBundledPrimitives(b) => visitor.visit_output_bundled(b),
+                Param::StructObjects(p, s) => {
+                    for (path, _) in s.object_paths() {
+                        if p.is_input() {
+                            visitor.visit_input_struct_object(p.ident(), &path);
+                        } else {
+                            visitor.visit_output_struct_object(p.ident(), &path);
+                        }
+                    }
+                }
                 Param::Params(p) => match p {
                     idlc_mir::Param::In { r#type, ident } => match r#type {
                         ParamTypeIn::Array(t, cnt) => match t {
@@ -99,43 +128,47 @@ impl<'a> Param<'a> {
         }
     }
 
+    /// Arranges `params` the way they are laid out in an invocation: all the
+    /// input buffers, output buffers, input objects and then output objects. A
+    /// bundle is always the first buffer of its section, everything else stays
+    /// in declaration order.
     fn new(params: &'a [idlc_mir::Param], packed_primitives: &'a PackedPrimitives) -> Vec<Self> {
         let mut out = Vec::new();
-        if packed_primitives.n_inputs() > 1 {
-            out.push(Self::InputBundledPrimitives(packed_primitives));
-        }
-        out.extend(
-            params
-                .iter()
-                .filter(|&x| {
-                    !(packed_primitives.n_inputs() > 1
-                        && x.is_input()
-                        && (x.is_primitive_value() || x.is_small_struct_value()))
-                })
-                .filter(|x| {
-                    !(packed_primitives.n_outputs() > 1
-                        && x.is_output()
-                        && (x.is_primitive_value() || x.is_small_struct_value()))
-                })
-                .map(Param::Params),
-        );
 
-        if packed_primitives.n_outputs() > 1 {
-            let me = idlc_mir::Param::Out {
-                r#type: idlc_mir::ParamTypeOut::Array(Type::Primitive(Primitive::Uint8), None),
-                ident: idlc_mir::Ident::new_without_span(String::new()),
+        for is_input in [true, false] {
+            let is_bundled = if is_input {
+                let is_bundled = packed_primitives.n_inputs() > 1;
+                is_bundled.then(|| out.push(Self::InputBundledPrimitives(packed_primitives)));
+                is_bundled
+            } else {
+                let is_bundled = packed_primitives.n_outputs() > 1;
+                is_bundled.then(|| out.push(Self::OutputBundledPrimitives(packed_primitives)));
+                is_bundled
             };
-            let idx = out.iter().position(|x| {
-                if let Param::Params(p) = *x {
-                    p >= &me
-                } else {
-                    false
-                }
-            });
+            out.extend(
+                params
+                    .iter()
+                    .filter(|x| x.is_input() == is_input)
+                    .filter(|x| !matches!(x.r#type(), Type::Interface(_)))
+                    .filter(|x| {
+                        !(is_bundled && (x.is_primitive_value() || x.is_small_struct_value()))
+                    })
+                    .map(Param::Params),
+            );
+        }
 
-            out.insert(
-                idx.unwrap_or(out.len()),
-                Param::OutputBundledPrimitives(packed_primitives),
+        for is_input in [true, false] {
+            out.extend(
+                params
+                    .iter()
+                    .filter(|x| x.is_input() == is_input)
+                    .filter_map(|x| match x.r#type() {
+                        Type::Interface(_) => Some(Param::Params(x)),
+                        Type::Struct(s) if !x.is_array() => {
+                            Some(Param::StructObjects(x, s.as_ref()))
+                        }
+                        _ => None,
+                    }),
             );
         }
 
@@ -150,9 +183,7 @@ pub fn visit_params<V: ParameterVisitor>(function: &Function, visitor: &mut V) {
 
 #[inline]
 pub fn visit_params_with_bundling<V: ParameterVisitor>(function: &Function, visitor: &mut V) {
-    let mut params = function.params.clone();
-    params.sort();
     let packed_primitives = super::serialization::PackedPrimitives::new(function);
-    let with_bundling = Param::new(&params, &packed_primitives);
+    let with_bundling = Param::new(&function.params, &packed_primitives);
     Param::visit(with_bundling.into_iter(), visitor);
 }
diff --git a/idlc_codegen/src/serialization.rs b/idlc_codegen/src/serialization.rs
index f1a0adb..eec4dce 100644
--- a/idlc_codegen/src/serialization.rs
+++ b/idlc_codegen/src/serialization.rs
@@ -13,6 +13,13 @@ impl Type {
             Self::SmallStruct(s) => s.size(),
         }
     }
+
+    pub fn alignment(&self) -> usize {
+        match self {
+            Self::Primitive(p) => p.size(),
+            Self::SmallStruct(s) => s.alignment(),
+        }
+    }
 }
 impl PartialOrd<Self> for Type {
     #[inline]
@@ -106,6 +113,31 @@ impl PackedPrimitives {
         me
     }
 
+    /// `true` if every member of the input bundle is naturally aligned despite
+    /// the bundle having no padding.
+    #[must_use]
+    pub fn is_input_aligned(&self) -> bool {
+        Self::is_aligned(self.input_types())
+    }
+
+    /// `true` if every member of the output bundle is naturally aligned despite
+    /// the bundle having no padding.
+    #[must_use]
+    pub fn is_output_aligned(&self) -> bool {
+        Self::is_aligned(self.output_types())
+    }
+
+    fn is_aligned<'a>(types: impl Iterator<Item = &'a Type>) -> bool {
+        let mut offset = 0;
+        for ty in types {
+            if offset % ty.alignment() != 0 {
+                return false;
+            }
+            offset += ty.size();
+        }
+        true
+    }
+
     #[must_use]
     pub fn inputs_by_idents(&self) -> impl ExactSizeIterator<Item = (&idlc_mir::Ident, &Type)> {
         self.inputs.iter().map(|pair| (&pair.ident, &pair.ty))
diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 35eb654..0594d6f 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -7,6 +7,8 @@ use crate::interface::variable_names::invoke::{ARGS, OBJECTBUF, OBJECTBUFIN, OP}
 
 use crate::types::change_primitive;
 
+use idlc_codegen::functions::{object_path_to_string, ObjectPath};
+
 use super::serialization::TransportBuffer;
 
 #[derive(Debug, Clone, Default)]
@@ -116,13 +118,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             unreachable!()
         };
         let _idx = self.idx();
-        let bi_embedded = packer.bi_embedded();
         self.initializations.push(format!(
             r#"{definition} i;
-{0}{1}"#,
-            bi_embedded,
+{0}"#,
             packer.bi_assignments(),
         ));
+        self.pre_call.push(packer.bi_blank_objects());
         self.args.push(format!(
             r#"
         {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
@@ -142,25 +143,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 r#"
             {{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},"#
             ));
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
+            for (path, _) in ty.object_paths() {
+                let path = object_path_to_string(&path);
                 self.pre_call.push(format!(
-                    r#"{ident}_cpy.{path} = Object_NULL;
+                    r#"{ident}_cpy{path} = Object_NULL;
     "#
                 ));
-                self.visit_input_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{ident}_cpy.{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
             }
         } else {
             self.args.push(format!(
@@ -182,6 +170,15 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         ));
     }
 
+    fn visit_input_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {
+        let _idx = self.idx();
+        let path = object_path_to_string(path);
+        self.args.push(format!(
+            r#"
+        {{.o = (*{ident}_ptr){path} }},"#
+        ));
+    }
+
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         let idx = self.idx();
         let name = format!("{}_ptr", ident);
@@ -275,25 +272,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"
         {{.b = ({OBJECTBUF}) {{  {name}, sizeof({ty_ident}) }} }},"#
         ));
-        let objects = ty.objects();
-        for object in objects {
-            let path = object
-                .0
-                .iter()
-                .map(|ident| ident.to_string())
-                .collect::<Vec<String>>()
-                .join(".");
+        for (path, _) in ty.object_paths() {
+            let path = object_path_to_string(&path);
             self.initializations.push(format!(
-                r#"{name}->{path} = Object_NULL;
+                r#"(*{name}){path} = Object_NULL;
     "#
             ));
-            self.visit_output_object(
-                &idlc_mir::Ident {
-                    ident: format!("{name}->{}", path),
-                    span: object.0.last().unwrap().span,
-                },
-                object.1,
-            )
         }
     }
 
@@ -303,13 +287,23 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
         let idx = self.idx();
-        let mut name = format!("{ident}");
-        if !ident.contains("->") {
-            name = format!("*{name}");
-        }
         self.post_call.push(format!(
             r#"
-    {name} = {ARGS}[{idx}].o;"#
+    *{ident} = {ARGS}[{idx}].o;"#
+        ));
+        self.args.push(
+            r#"
+        {.o = Object_NULL },"#
+                .to_string(),
+        );
+    }
+
+    fn visit_output_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {
+        let idx = self.idx();
+        let path = object_path_to_string(path);
+        self.post_call.push(format!(
+            r#"
+    (*{ident}_ptr){path} = {ARGS}[{idx}].o;"#
         ));
         self.args.push(
             r#"
@@ -392,7 +386,7 @@ static inline int32_t {current_iface_ident}_{ident}(Object self{params})
             "".to_string()
         },
         if !post_call_assignments.is_empty() {
-            post_call_assignments.to_string()
+            format!("    if (Object_OK != result) {{ return result; }}\n{post_call_assignments}")
         } else {
             "".to_string()
         }
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 5db313c..9918083 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -8,11 +8,16 @@ use crate::{
 
 use super::serialization::TransportBuffer;
 
+use idlc_codegen::functions::{object_path_to_string, ObjectPath};
+use idlc_codegen::serialization::Type;
+
 #[derive(Debug, Default, Clone)]
 pub struct Invoke {
     pub args: Vec<String>,
     pub pre: Vec<String>,
     pub post: Vec<String>,
+    /// Copies the outputs out of aligned temporaries.
+    copy_out: Vec<String>,
 
     is_no_typed_objects: bool,
 
@@ -25,6 +30,7 @@ impl Invoke {
             args: vec![],
             pre: vec![],
             post: vec![],
+            copy_out: vec![],
             is_no_typed_objects,
             idx: 0,
         };
@@ -50,7 +56,7 @@ impl Invoke {
     }
 
     pub fn post(&self) -> String {
-        self.post.concat()
+        self.post.concat() + &self.copy_out.concat()
     }
 }
 
@@ -150,6 +156,18 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             r#" \
                 {CONST} {definition} *i = (const struct {BI}*){ARGS}[{idx}].b.ptr;"#
         ));
+        let is_aligned = packed_primitives.is_input_aligned();
+        for (ident, ty) in packed_primitives.inputs_by_idents() {
+            if let Type::SmallStruct(s) = ty {
+                if !is_aligned || s.contains_interfaces() {
+                    self.pre.push(format!(
+                        r#" \
+                {} {ident}_cpy = i->m_{ident};"#,
+                        s.ident
+                    ));
+                }
+            }
+        }
     }
 
     fn visit_input_big_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
@@ -161,23 +179,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         if ty.contains_interfaces() {
             self.pre.push(format!(
                 r#" \
-                {ty_ident} {name} = *({CONST} {ty_ident}*){ARGS}[{idx}].b.ptr;"#
+                {ty_ident} {ident}_cpy = *({CONST} {ty_ident}*){ARGS}[{idx}].b.ptr;"#
             ));
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
-                let idx = self.idx();
-                let field_ident = format!("{name}.{}", path);
-                self.pre.push(format!(
-                    r#" \
-                {field_ident} = {ARGS}[{idx}].o;"#
-                ));
-            }
         } else {
             self.pre.push(format!(
                 r#" \
@@ -203,6 +206,15 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
     }
 
+    fn visit_input_struct_object(&mut self, ident: &idlc_mir::Ident, path: &ObjectPath) {
+        let idx = self.idx();
+        let path = object_path_to_string(path);
+        self.pre.push(format!(
+            r#" \
+                {ident}_cpy{path} = {ARGS}[{idx}].o;"#
+        ));
+    }
+
     fn visit_output_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
         let idx = self.idx();
         let sz = ty.size();
@@ -288,33 +300,10 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let sz = ty.size();
         let ty_ident = ty.ident.to_string();
         self.args.push(format!("{ARGS}[{idx}].b.size != {sz}"));
-        if ty.contains_interfaces() {
-            self.pre.push(format!(
-                r#" \
-                {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
-            ));
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
-                self.visit_output_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{name}->{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
-            }
-        } else {
-            self.pre.push(format!(
-                r#" \
+        self.pre.push(format!(
+            r#" \
                 {ty_ident} *{name} = ({ty_ident}*){ARGS}[{idx}].b.ptr;"#
-            ));
-        }
+        ));
     }
 
     fn visit_output_small_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
@@ -350,33 +339,56 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             r#" \
                 {definition} *o = (struct {BO}*){ARGS}[{idx}].b.ptr;"#
         ));
+        let is_aligned = packed_primitives.is_output_aligned();
+        for (ident, ty) in packed_primitives.outputs_by_idents() {
+            let (ty, contains_interfaces) = match ty {
+                Type::Primitive(p) => (change_primitive(*p), false),
+                Type::SmallStruct(s) => (s.ident.as_ref(), s.contains_interfaces()),
+            };
+            if !is_aligned {
+                self.pre.push(format!(
+                    r#" \
+                {ty} {ident}_cpy = o->m_{ident}; \
+                {ty} *{ident}_ptr = &{ident}_cpy;"#
+                ));
+                self.copy_out.push(format!(
+                    r#" \
+                o->m_{ident} = {ident}_cpy;"#
+                ));
+            } else if contains_interfaces {
+                self.pre.push(format!(
+                    r#" \
+                {ty} *{ident}_ptr = &o->m_{ident};"#
+                ));
+            }
+        }
     }
 
     fn visit_output_object(&mut self, ident: &idlc_mir::Ident, ty: Option<&str>) {
         let idx = self.idx();
-        let mut name = format!("{ident}");
         let ty = if self.is_no_typed_objects {
             "Object".to_string()
         } else {
             ty.unwrap_or("Object").to_string()
         };
-        if !ident.contains("->") && !ident.contains('.') {
-            name = format!("*{name}");
-            self.pre.push(format!(
-                r#" \
-                {ty} {name} = &{ARGS}[{idx}].o;"#
-            ));
-        } else {
-            self.pre.push(format!(
-                r#" \
-                {name} = {ARGS}[{idx}].o;"#
-            ));
-            self.post.push(format!(
-                r#" \
-                {ARGS}[{idx}].o = {name}; \
-                {name} = Object_NULL;"#
-            ));
-        }
+        self.pre.push(format!(
+            r#" \
+                {ty} *{ident} = &{ARGS}[{idx}].o;"#
+        ));
+    }
+
+    fn visit_output_struct_object(&mut self, ident: &idlc_mir::Ident, path: &ObjectPath) {
+        let idx = self.idx();
+        let path = object_path_to_string(path);
+        self.pre.push(format!(
+            r#" \
+                (*{ident}_ptr){path} = Object_NULL;"#
+        ));
+        self.post.push(format!(
+            r#" \
+                {ARGS}[{idx}].o = (*{ident}_ptr){path}; \
+                (*{ident}_ptr){path} = Object_NULL;"#
+        ));
     }
 }
 
diff --git a/idlc_codegen_c/src/interface/functions/serialization.rs b/idlc_codegen_c/src/interface/functions/serialization.rs
index 2cc462d..7a8c612 100644
--- a/idlc_codegen_c/src/interface/functions/serialization.rs
+++ b/idlc_codegen_c/src/interface/functions/serialization.rs
@@ -3,6 +3,7 @@
 
 use std::borrow::Cow;
 
+use idlc_codegen::functions::object_path_to_string;
 use idlc_codegen::serialization::Type;
 
 use crate::interface::variable_names::invoke::{BI, BO};
@@ -31,6 +32,7 @@ impl<'a> PackedPrimitives<'a> {
             self.0.packed_input_size(),
             BI,
             is_invoke,
+            self.0.is_input_aligned(),
         )
     }
 
@@ -54,22 +56,21 @@ impl<'a> PackedPrimitives<'a> {
         assignments
     }
 
-    pub fn bi_embedded(&self) -> String {
-        let mut assignments = String::new();
-        self.0.inputs_by_idents().for_each(|(ident, ty)| match ty {
-            Type::Primitive(_) => {}
-            Type::SmallStruct(s) => {
-                if s.contains_interfaces() {
-                    let ty = s.ident.to_string();
-
-                    assignments += &format!(
-                        r#"
-    {ty} {ident}_cpy = *{ident}_ptr;"#
+    /// Object handles never travel inside of the bundle.
+    pub fn bi_blank_objects(&self) -> String {
+        let mut blanks = String::new();
+        for (ident, ty) in self.0.inputs_by_idents() {
+            if let Type::SmallStruct(s) = ty {
+                for (path, _) in s.object_paths() {
+                    let path = object_path_to_string(&path);
+                    blanks += &format!(
+                        r#"i.m_{ident}{path} = Object_NULL;
+    "#
                     );
                 }
             }
-        });
-        assignments
+        }
+        blanks
     }
 
     pub fn bo_definition(&self, is_invoke: bool) -> Option<TransportBuffer> {
@@ -78,6 +79,7 @@ impl<'a> PackedPrimitives<'a> {
             self.0.packed_output_size(),
             BO,
             is_invoke,
+            self.0.is_output_aligned(),
         )
     }
 
@@ -101,23 +103,6 @@ impl<'a> PackedPrimitives<'a> {
         assignments
     }
 
-    pub fn bo_embedded(&self) -> Vec<(idlc_mir::Ident, &idlc_mir::Ident, Option<&str>)> {
-        let mut embedded_objs: Vec<(idlc_mir::Ident, &idlc_mir::Ident, Option<&str>)> = vec![];
-        self.0.outputs_by_idents().for_each(|(ident, ty)| match ty {
-            Type::Primitive(_) => {}
-            Type::SmallStruct(s) => {
-                if s.contains_interfaces() {
-                    for field in &s.fields {
-                        if let idlc_mir::Type::Interface(i) = &field.val.0 {
-                            embedded_objs.push((ident.clone(), &field.ident, i.as_deref()));
-                        }
-                    }
-                }
-            }
-        });
-        embedded_objs
-    }
-
     pub fn struct_init(s: &idlc_mir::StructInner, initialization: &mut String) {
         initialization.push('{');
         for field in &s.fields {
@@ -155,6 +140,7 @@ impl<'a> PackedPrimitives<'a> {
         size: usize,
         in_out: &str,
         is_invoke: bool,
+        is_aligned: bool,
     ) -> Option<TransportBuffer> {
         if size == 0 {
             return None;
@@ -188,14 +174,19 @@ impl<'a> PackedPrimitives<'a> {
             }
         }
         initialization.pop();
+        let packed = if is_aligned {
+            ""
+        } else {
+            "__attribute__((packed)) "
+        };
         let definition = if is_invoke {
             format!(
-                r#"struct {in_out} {{ \{fields}
+                r#"struct {packed}{in_out} {{ \{fields}
                 }}"#
             )
         } else {
             format!(
-                r#"struct {in_out} {{{fields}
+                r#"struct {packed}{in_out} {{{fields}
     }}"#
             )
         };
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 5247ad5..2f3da46 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -14,8 +14,10 @@ pub struct Signature {
     bundled_outputs: Vec<String>,
     input_obj_arg: Vec<String>,
 
-    total_bundled_input: u8,
-    total_bundled_output: u8,
+    total_bundled_input: usize,
+    total_bundled_output: usize,
+    is_input_aligned: bool,
+    is_output_aligned: bool,
     is_no_typed_objects: bool,
 }
 
@@ -46,6 +48,7 @@ impl Signature {
         counts: &idlc_codegen::counts::Counter,
         is_no_typed_objects: bool,
     ) -> Self {
+        let packed_primitives = idlc_codegen::serialization::PackedPrimitives::new(function);
         let mut me = Self {
             inputs: vec![],
             outputs: vec![],
@@ -54,10 +57,11 @@ impl Signature {
             input_obj_arg: vec![],
             total_bundled_input: counts.total_bundled_input,
             total_bundled_output: counts.total_bundled_output,
+            is_input_aligned: packed_primitives.is_input_aligned(),
+            is_output_aligned: packed_primitives.is_output_aligned(),
             is_no_typed_objects,
         };
 
-        let packed_primitives = idlc_codegen::serialization::PackedPrimitives::new(function);
         let packed_input = packed_primitives.input_idents();
         let packed_output = packed_primitives.output_idents();
         me.bundled_inputs = packed_input.map(|ident| ident.to_string()).collect();
@@ -68,6 +72,18 @@ impl Signature {
         me
     }
 
+    fn is_bundled_input(&self, ident: &Ident) -> bool {
+        self.total_bundled_input > 1
+            && self.bundled_inputs.contains(&ident.to_string())
+            && self.bundled_inputs.len() > 1
+    }
+
+    fn is_bundled_output(&self, ident: &Ident) -> bool {
+        self.total_bundled_output > 1
+            && self.bundled_outputs.contains(&ident.to_string())
+            && self.bundled_outputs.len() > 1
+    }
+
     pub fn input_obj_buffer(&self) -> impl Iterator<Item = &String> + '_ {
         self.input_obj_arg.iter()
     }
@@ -138,10 +154,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
         self.inputs
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
-        if self.total_bundled_input > 1
-            && self.bundled_inputs.contains(&ident.to_string())
-            && self.bundled_inputs.len() > 1
-        {
+        if self.is_bundled_input(ident) {
             self.outputs
                 .push((format!("i->m_{}", ident), change_primitive(ty).to_string()));
         } else {
@@ -153,15 +166,12 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("*{}_ptr", ident), format!("{CONST} {}", ty.ident)));
-        if self.total_bundled_input > 1
-            && self.bundled_inputs.contains(&ident.to_string())
-            && self.bundled_inputs.len() > 1
-        {
+        if self.is_bundled_input(ident) && self.is_input_aligned && !ty.contains_interfaces() {
             self.outputs
                 .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
-        } else if ty.contains_interfaces() {
+        } else if ty.contains_interfaces() || self.is_bundled_input(ident) {
             self.outputs
-                .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("&{}_cpy", ident), format!("{CONST} {}", ty.ident)));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -170,15 +180,12 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("*{}_ptr", ident), format!("{CONST} {}", ty.ident)));
-        if self.total_bundled_input > 1
-            && self.bundled_inputs.contains(&ident.to_string())
-            && self.bundled_inputs.len() > 1
-        {
+        if self.is_bundled_input(ident) && self.is_input_aligned && !ty.contains_interfaces() {
             self.outputs
                 .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
-        } else if ty.contains_interfaces() {
+        } else if ty.contains_interfaces() || self.is_bundled_input(ident) {
             self.outputs
-                .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("&{}_cpy", ident), format!("{CONST} {}", ty.ident)));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -259,12 +266,13 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
         self.inputs
             .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
-        if self.total_bundled_output > 1
-            && self.bundled_outputs.contains(&ident.to_string())
-            && self.bundled_outputs.len() > 1
-        {
-            self.outputs
-                .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
+        if self.is_bundled_output(ident) {
+            let name = if self.is_output_aligned {
+                format!("&o->m_{}", ident)
+            } else {
+                format!("{}_ptr", ident)
+            };
+            self.outputs.push((name, change_primitive(ty).to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), change_primitive(ty).to_string()));
@@ -274,12 +282,13 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("*{}_ptr", ident), ty.ident.to_string()));
-        if self.total_bundled_output > 1
-            && self.bundled_outputs.contains(&ident.to_string())
-            && self.bundled_outputs.len() > 1
-        {
-            self.outputs
-                .push((format!("&o->m_{}", ident), ty.ident.to_string()));
+        if self.is_bundled_output(ident) {
+            let name = if self.is_output_aligned && !ty.contains_interfaces() {
+                format!("&o->m_{}", ident)
+            } else {
+                format!("{}_ptr", ident)
+            };
+            self.outputs.push((name, ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), ty.ident.to_string()));
@@ -288,12 +297,13 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("*{}_ptr", ident), ty.ident.to_string()));
-        if self.total_bundled_output > 1
-            && self.bundled_outputs.contains(&ident.to_string())
-            && self.bundled_outputs.len() > 1
-        {
-            self.outputs
-                .push((format!("&o->m_{}", ident), ty.ident.to_string()));
+        if self.is_bundled_output(ident) {
+            let name = if self.is_output_aligned && !ty.contains_interfaces() {
+                format!("&o->m_{}", ident)
+            } else {
+                format!("{}_ptr", ident)
+            };
+            self.outputs.push((name, ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), ty.ident.to_string()));
diff --git a/idlc_codegen_cpp/src/generator.rs b/idlc_codegen_cpp/src/generator.rs
index db09835..ceaaefa 100644
--- a/idlc_codegen_cpp/src/generator.rs
+++ b/idlc_codegen_cpp/src/generator.rs
@@ -7,7 +7,7 @@ use idlc_mir::Node;
 
 use crate::interface::{emit_interface_impl, emit_interface_invoke};
 
-use idlc_codegen::MINKIDL_HEADER_COMMENT;
+use idlc_codegen::{order::declaration_order, MINKIDL_HEADER_COMMENT};
 pub struct Generator;
 
 impl idlc_codegen::SplitInvokeGenerator for Generator {
@@ -15,8 +15,16 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
         let mut result = String::new();
         result.push_str(&generate_common());
 
+        // Methods may refer to interfaces declared later on.
         for node in &mir.nodes {
-            match node.as_ref() {
+            if let Node::Interface(i) = node.as_ref() {
+                result.push_str(&format!("class {};\n", i.ident));
+            }
+        }
+
+        let mut definitions = String::new();
+        for node in declaration_order(mir) {
+            match node {
                 Node::Include(i) => {
                     let inc_name = i.display().to_string().replace(".idl", "");
                     result.push_str(&format!("#include \"{}.hpp\"\n", inc_name));
@@ -35,10 +43,11 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
                     result.push_str(&emit_struct(s.as_ref()));
                 }
                 Node::Interface(i) => {
-                    result.push_str(&emit_interface_impl(i));
+                    result.push_str(&emit_interface_impl(i, &mut definitions));
                 }
             }
         }
+        result.push_str(&definitions);
 
         result
     }
@@ -53,8 +62,8 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
 "#
         ));
 
-        for node in &mir.nodes {
-            match node.as_ref() {
+        for node in declaration_order(mir) {
+            match node {
                 Node::Include(i) => {
                     let inc_name = i.display().to_string().replace(".idl", "");
                     result.push_str(&format!("#include \"{}.hpp\"\n", inc_name));
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index c743003..5e241cf 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -6,6 +6,8 @@ use idlc_mir::Ident;
 
 use super::serialization::TransportBuffer;
 
+use idlc_codegen::functions::{object_path_to_string, ObjectPath};
+
 #[derive(Debug, Clone, Default)]
 pub struct Implementation(idlc_codegen_c::interface::functions::implementation::Implementation);
 
@@ -53,12 +55,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             unreachable!()
         };
         let _idx = self.0.idx();
-        let bi_embedded = packer.bi_embedded();
-        self.0.initializations.push(format!(
-            r#"{definition} i;{0}{1}"#,
-            bi_embedded,
-            packer.bi_assignments(),
-        ));
+        self.0
+            .initializations
+            .push(format!(r#"{definition} i;{0}"#, packer.bi_assignments(),));
+        self.0.pre_call.push(packer.bi_blank_objects());
         self.0.args.push(format!(
             r#"
         {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
@@ -79,25 +79,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         "#
             ));
 
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
+            for (path, _) in ty.object_paths() {
+                let path = object_path_to_string(&path);
                 self.0.pre_call.push(format!(
-                    r#"{ident}_cpy.{path} = Object_NULL;
+                    r#"{ident}_cpy{path} = Object_NULL;
     "#
                 ));
-                self.visit_input_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{ident}_cpy.{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
             }
         } else {
             self.0.args.push(format!(
@@ -113,18 +100,19 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
         let _idx = self.0.idx();
-        let name = format!("{}", ident);
-        if name.contains('.') {
-            self.0.args.push(format!(
-                r#"
-        {{.o = {name} }},"#
-            ));
-        } else {
-            self.0.args.push(format!(
-                r#"
-        {{.o = {name}.get() }},"#
-            ));
-        }
+        self.0.args.push(format!(
+            r#"
+        {{.o = {ident}.get() }},"#
+        ));
+    }
+
+    fn visit_input_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {
+        let _idx = self.0.idx();
+        let path = object_path_to_string(path);
+        self.0.args.push(format!(
+            r#"
+        {{.o = {ident}_ref{path} }},"#
+        ));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
@@ -200,25 +188,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         {{.b = ({OBJECTBUF}) {{  &{name}, sizeof({ty_ident}) }} }},"#
         ));
 
-        let objects = ty.objects();
-        for object in objects {
-            let path = object
-                .0
-                .iter()
-                .map(|ident| ident.to_string())
-                .collect::<Vec<String>>()
-                .join(".");
+        for (path, _) in ty.object_paths() {
+            let path = object_path_to_string(&path);
             self.0.initializations.push(format!(
                 r#"
-    {name}.{path} = Object_NULL;"#
+    {name}{path} = Object_NULL;"#
             ));
-            self.visit_output_object(
-                &idlc_mir::Ident {
-                    ident: format!("({name}.{})", path),
-                    span: object.0.last().unwrap().span,
-                },
-                object.1,
-            )
         }
     }
 
@@ -233,23 +208,50 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         {.o = (Object) { NULL, NULL } },"#
                 .to_string(),
         );
-        if ident.contains('.') || ident.contains("->") {
-            self.0.post_call.push(format!(
-                r#"
-    {ident} = {ARGS}[{idx}].o;"#
-            ));
-        } else {
-            self.0.post_call.push(format!(
-                r#"
+        self.0.post_call.push(format!(
+            r#"
     {ident}.consume({ARGS}[{idx}].o);"#
-            ));
-        }
+        ));
+    }
+
+    fn visit_output_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {
+        let idx = self.0.idx();
+        let path = object_path_to_string(path);
+        self.0.args.push(
+            r#"
+        {.o = (Object) { NULL, NULL } },"#
+                .to_string(),
+        );
+        self.0.post_call.push(format!(
+            r#"
+    {ident}_ref{path} = {ARGS}[{idx}].o;"#
+        ));
     }
 }
 
-pub fn emit(
+pub fn emit_declaration(
     function: &idlc_mir::Function,
     documentation: &str,
+    signature: &super::signature::Signature,
+) -> String {
+    let ident = &function.ident;
+    let mut params =
+        idlc_codegen_c::interface::functions::signature::iter_to_string(signature.params());
+    if !params.is_empty() {
+        params.remove(0);
+    }
+
+    format!(
+        r#"
+{documentation}
+    virtual int32_t {ident}({params});
+"#
+    )
+}
+
+pub fn emit_definition(
+    function: &idlc_mir::Function,
+    class_ident: &str,
     counts: &idlc_codegen::counts::Counter,
     signature: &super::signature::Signature,
 ) -> String {
@@ -295,14 +297,13 @@ pub fn emit(
 
     format!(
         r#"
-{documentation}
-    virtual int32_t {ident}({params}) {{
+inline int32_t {class_ident}::{ident}({params}) {{
 {0}{1}{2}
         int32_t result = {returns}
         if (Object_OK != result) {{ return result; }}
 {post_call_assignments}
         return result;
-    }}
+}}
 "#,
         if !initializations.is_empty() {
             format!("        {initializations}\n")
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index e48a7b8..336361a 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -3,6 +3,7 @@
 
 use idlc_codegen_c::interface::variable_names::invoke::{ARGS, OP};
 
+use idlc_codegen::functions::ObjectPath;
 use idlc_mir::Ident;
 
 #[derive(Debug, Default, Clone)]
@@ -40,7 +41,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut obj_args = String::new();
         for _ in 0..cnt.into() {
             let idx = self.0.idx();
-            obj_args.push_str(&format!(r"a[{idx}].o,"));
+            obj_args.push_str(&format!(r"{ty}(a[{idx}].o),"));
         }
         self.0.pre.push(format!(
             r#" \
@@ -83,6 +84,10 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
     }
 
+    fn visit_input_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {
+        self.0.visit_input_struct_object(ident, path);
+    }
+
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         self.0.visit_output_primitive_buffer(ident, ty);
     }
@@ -102,11 +107,9 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         cnt: idlc_mir::Count,
     ) {
         let ty = ty.unwrap_or("ProxyBase").to_string();
-        let mut objs = String::new();
         let mut obj_assign = String::new();
         for i in 0..cnt.into() {
             let idx = self.0.idx();
-            objs.push_str("Object_NULL, ");
             obj_assign.push_str(&format!(
                 r#"
                 {ARGS}[{idx}].o=p_{ident}[{i}].extract();"#
@@ -114,7 +117,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}[{cnt}] = {{ {objs} }};"#
+                {ty} p_{ident}[{cnt}];"#
         ));
         self.0.post.push(format!(
             r#" \
@@ -134,41 +137,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        // self.0.visit_output_big_struct(ident, ty);
-        let idx = self.0.idx();
-        let name = format!("{}_ptr", ident);
-        let sz = ty.size();
-        let ty_ident = ty.ident.to_string();
-        self.0.args.push(format!("{ARGS}[{idx}].b.size != {sz}"));
-        if ty.contains_interfaces() {
-            let name = format!("{}_ptr", ident);
-            self.0.pre.push(format!(
-                r#" \
-                {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
-            ));
-
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join("->");
-                self.0.visit_output_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{name}->{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
-            }
-        } else {
-            self.0.pre.push(format!(
-                r#" \
-                {ty_ident} *{name} = ({ty_ident}*){ARGS}[{idx}].b.ptr;"#
-            ));
-        }
+        self.0.visit_output_big_struct(ident, ty);
     }
 
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
@@ -187,6 +156,10 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 {ARGS}[{idx}].o = p_{ident}.extract();"#
         ));
     }
+
+    fn visit_output_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {
+        self.0.visit_output_struct_object(ident, path);
+    }
 }
 
 pub fn emit(
diff --git a/idlc_codegen_cpp/src/interface/functions/serialization.rs b/idlc_codegen_cpp/src/interface/functions/serialization.rs
index c90d1e9..fa3ac1d 100644
--- a/idlc_codegen_cpp/src/interface/functions/serialization.rs
+++ b/idlc_codegen_cpp/src/interface/functions/serialization.rs
@@ -3,6 +3,7 @@
 
 use std::borrow::Cow;
 
+use idlc_codegen::functions::object_path_to_string;
 use idlc_codegen::serialization::Type;
 
 use idlc_codegen_c::interface::variable_names::invoke::{BI, BO};
@@ -31,6 +32,7 @@ impl<'a> PackedPrimitives<'a> {
             self.0.packed_input_size(),
             BI,
             is_invoke,
+            self.0.is_input_aligned(),
         )
     }
 
@@ -43,40 +45,32 @@ impl<'a> PackedPrimitives<'a> {
     i.m_{ident} = {ident}_val;"#
                 );
             }
-            Type::SmallStruct(s) => {
-                if s.contains_interfaces() {
-                    assignments += &format!(
-                        r#"
-    i.m_{ident} = {ident}_cpy;"#
-                    );
-                } else {
-                    assignments += &format!(
-                        r#"
+            Type::SmallStruct(_) => {
+                assignments += &format!(
+                    r#"
     i.m_{ident} = {ident}_ref;"#
-                    );
-                }
+                );
             }
         });
 
         assignments
     }
 
-    #[allow(clippy::type_complexity)]
-    pub fn bi_embedded(&self) -> String {
-        let mut assignments = String::new();
-        self.0.inputs_by_idents().for_each(|(ident, ty)| match ty {
-            Type::Primitive(_) => {}
-            Type::SmallStruct(s) => {
-                if s.contains_interfaces() {
-                    let ty = s.ident.to_string();
-                    assignments += &format!(
-                        r#"
-    {ty} {ident}_cpy = {ident}_ref;"#
+    /// Object handles never travel inside of the bundle.
+    pub fn bi_blank_objects(&self) -> String {
+        let mut blanks = String::new();
+        for (ident, ty) in self.0.inputs_by_idents() {
+            if let Type::SmallStruct(s) = ty {
+                for (path, _) in s.object_paths() {
+                    let path = object_path_to_string(&path);
+                    blanks += &format!(
+                        r#"i.m_{ident}{path} = Object_NULL;
+    "#
                     );
                 }
             }
-        });
-        assignments
+        }
+        blanks
     }
 
     pub fn bo_definition(&self, is_invoke: bool) -> Option<TransportBuffer> {
@@ -85,6 +79,7 @@ impl<'a> PackedPrimitives<'a> {
             self.0.packed_output_size(),
             BO,
             is_invoke,
+            self.0.is_output_aligned(),
         )
     }
 
@@ -114,6 +109,7 @@ impl<'a> PackedPrimitives<'a> {
         size: usize,
         in_out: &str,
         is_invoke: bool,
+        is_aligned: bool,
     ) -> Option<TransportBuffer> {
         if size == 0 {
             return None;
@@ -147,14 +143,19 @@ impl<'a> PackedPrimitives<'a> {
             }
         }
         initialization.pop();
+        let packed = if is_aligned {
+            ""
+        } else {
+            "__attribute__((packed)) "
+        };
         let definition = if is_invoke {
             format!(
-                r#"struct {in_out} {{ \{fields}
+                r#"struct {packed}{in_out} {{ \{fields}
                 }}"#
             )
         } else {
             format!(
-                r#"struct {in_out} {{{fields}
+                r#"struct {packed}{in_out} {{{fields}
     }}"#
             )
         };
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 6d83820..89eea61 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -15,12 +15,15 @@ pub struct Signature {
     input_obj_arg: Vec<String>,
     output_obj_arg: Vec<String>,
 
-    total_bundled_input: u8,
-    total_bundled_output: u8,
+    total_bundled_input: usize,
+    total_bundled_output: usize,
+    is_input_aligned: bool,
+    is_output_aligned: bool,
 }
 
 impl Signature {
     pub fn new(function: &idlc_mir::Function, counts: &idlc_codegen::counts::Counter) -> Self {
+        let packed_primitives = idlc_codegen::serialization::PackedPrimitives::new(function);
         let mut me = Self {
             inputs: vec![],
             outputs: vec![],
@@ -30,9 +33,10 @@ impl Signature {
             output_obj_arg: vec![],
             total_bundled_input: counts.total_bundled_input,
             total_bundled_output: counts.total_bundled_output,
+            is_input_aligned: packed_primitives.is_input_aligned(),
+            is_output_aligned: packed_primitives.is_output_aligned(),
         };
 
-        let packed_primitives = idlc_codegen::serialization::PackedPrimitives::new(function);
         let packed_input = packed_primitives.input_idents();
         let packed_output = packed_primitives.output_idents();
         me.bundled_inputs = packed_input.map(|ident| ident.to_string()).collect();
@@ -43,6 +47,14 @@ impl Signature {
         me
     }
 
+    fn is_bundled_input(&self, ident: &Ident) -> bool {
+        self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string())
+    }
+
+    fn is_bundled_output(&self, ident: &Ident) -> bool {
+        self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string())
+    }
+
     pub fn params(&self) -> impl Iterator<Item = String> + '_ {
         self.inputs
             .iter()
@@ -95,7 +107,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(&{}_ref)[{cnt}]", ident);
-        let ty = format!("{CONST} {}", ty.unwrap_or("Object"));
+        let ty = format!("{CONST} {}", ty.unwrap_or("ProxyBase"));
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
@@ -105,7 +117,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
         self.inputs
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
-        if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
+        if self.is_bundled_input(ident) {
             self.outputs
                 .push((format!("i->m_{}", ident), change_primitive(ty).to_string()));
         } else {
@@ -117,12 +129,12 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
-        if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
+        if self.is_bundled_input(ident) && self.is_input_aligned && !ty.contains_interfaces() {
             self.outputs
                 .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
-        } else if ty.contains_interfaces() {
+        } else if ty.contains_interfaces() || self.is_bundled_input(ident) {
             self.outputs
-                .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("{}_cpy", ident), format!("{CONST} {}", ty.ident)));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -131,12 +143,12 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
-        if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
+        if self.is_bundled_input(ident) && self.is_input_aligned && !ty.contains_interfaces() {
             self.outputs
                 .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
-        } else if ty.contains_interfaces() {
+        } else if ty.contains_interfaces() || self.is_bundled_input(ident) {
             self.outputs
-                .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("{}_cpy", ident), format!("{CONST} {}", ty.ident)));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -202,7 +214,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(&{}_ref)[{cnt}]", ident);
-        let ty = ty.unwrap_or("Object").to_string();
+        let ty = ty.unwrap_or("ProxyBase").to_string();
         self.inputs.push((name, ty));
         self.output_obj_arg.push(format!("{}_len", ident));
         self.outputs
@@ -212,9 +224,13 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
         self.inputs
             .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
-        if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
+        if self.is_bundled_output(ident) {
+            let name = if self.is_output_aligned {
+                format!("&o->m_{}", ident)
+            } else {
+                format!("{}_ptr", ident)
+            };
+            self.outputs.push((name, change_primitive(ty).to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), change_primitive(ty).to_string()));
@@ -224,9 +240,13 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
-        if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("o->m_{}", ident), ty.ident.to_string()));
+        if self.is_bundled_output(ident) {
+            let name = if self.is_output_aligned && !ty.contains_interfaces() {
+                format!("o->m_{}", ident)
+            } else {
+                format!("*{}_ptr", ident)
+            };
+            self.outputs.push((name, ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), ty.ident.to_string()));
@@ -235,9 +255,13 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
-        if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("o->m_{}", ident), ty.ident.to_string()));
+        if self.is_bundled_output(ident) {
+            let name = if self.is_output_aligned && !ty.contains_interfaces() {
+                format!("o->m_{}", ident)
+            } else {
+                format!("*{}_ptr", ident)
+            };
+            self.outputs.push((name, ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), ty.ident.to_string()));
diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index 419ffca..d3fa70e 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -7,10 +7,11 @@ mod functions;
 
 use idlc_codegen_c::types::{change_const_primitive, change_primitive};
 
-pub fn emit_interface_impl(interface: &Interface) -> String {
+/// Methods of the emitted class are defined in `definitions`, so that those can
+/// use any other class.
+pub fn emit_interface_impl(interface: &Interface, definitions: &mut String) -> String {
     let ident = interface.ident.to_string();
 
-    let mut base_iface = String::new();
     let mut constants = String::new();
     let mut errors = String::new();
     let mut op_codes = String::new();
@@ -19,7 +20,6 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
 
     // need to have all of the base-class functions, error-codes and const values
     interface.iter().skip(1).for_each(|iface| {
-        base_iface.push_str(&format!("I{} ", &iface.ident.to_string()));
         iface.nodes.iter().for_each(|node| match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
@@ -46,12 +46,14 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
                     idlc_codegen::documentation::DocumentationStyle::C,
                 );
 
-                implementations.push_str(&functions::implementation::emit(
+                implementations.push_str(&functions::implementation::emit_declaration(
                     f,
                     &documentation,
-                    &counts,
                     &signature,
                 ));
+                definitions.push_str(&functions::implementation::emit_definition(
+                    f, &ident, &counts, &signature,
+                ));
             }
         })
     });
@@ -98,19 +100,23 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
     static const ObjectOp OP_{} = {};"#,
                     f.ident, f.id,
                 ));
-                implementations.push_str(&functions::implementation::emit(
+                implementations.push_str(&functions::implementation::emit_declaration(
                     f,
                     &documentation,
-                    &counts,
                     &signature,
                 ));
+                definitions.push_str(&functions::implementation::emit_definition(
+                    f, &ident, &counts, &signature,
+                ));
             }
         }
     }
 
-    if !base_iface.is_empty() {
-        base_iface = format!(": public {base_iface}");
-    }
+    let base_iface = interface
+        .base
+        .as_ref()
+        .map(|base| format!(": public I{} ", base.ident))
+        .unwrap_or_default();
 
     format!(
         r#"
diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index 5d486aa..b01487c 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -13,6 +13,9 @@ use crate::ident::EscapedIdent;
 use crate::types::namespaced_struct;
 
 use super::serialization::TransportBuffer;
+
+use idlc_codegen::functions::{object_path_to_string, ObjectPath};
+
 const INPUT_BUFFER: &str = crate::interface::mink_primitives::namespace!("BufIn");
 const OUTPUT_BUFFER: &str = crate::interface::mink_primitives::namespace!("BufOut");
 
@@ -135,8 +138,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ty: &str = &namespaced_struct(r#struct);
         let escaped_ident = EscapedIdent::new(ident);
 
-        let objects = r#struct.objects();
-        if objects.is_empty() {
+        if r#struct.is_primitive_struct() {
             self.args.push(format!(
                 r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
@@ -148,31 +150,23 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         } else {
             self.initializations.push(format!(
                 r#"
-                let {escaped_ident} = std::mem::ManuallyDrop::new(std::cell::UnsafeCell::new(unsafe {{ std::ptr::read({escaped_ident}) }}));
+                let mut __{ident} = std::mem::ManuallyDrop::new(unsafe {{ std::ptr::read({escaped_ident}) }});
             "#
             ));
+            for (path, _) in r#struct.object_paths() {
+                let path = object_path_to_string(&path);
+                self.initializations.push(format!(
+                    "unsafe {{ std::ptr::write(std::ptr::addr_of_mut!(__{ident}{path}), std::mem::zeroed()); }}\n"
+                ));
+            }
             self.args.push(format!(
                 r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
-                    ptr: {escaped_ident}.get().cast(),
+                    ptr: std::ptr::addr_of!(*__{ident}).cast(),
                     size: std::mem::size_of::<{ty}>(),
                 }}
             }}"#
             ));
-            for (object, _) in objects {
-                let path = super::signature::idents_to_struct_path(&object);
-                self.args.push(format!(
-                    r#"{ARG} {{
-                o: std::mem::ManuallyDrop::new(unsafe {{
-                    let ptr = &mut (*{escaped_ident}.get()){path};
-                    let obj = std::mem::ManuallyDrop::new(std::ptr::read(ptr));
-                    std::ptr::write_volatile(ptr, std::mem::zeroed());
-
-                    std::mem::transmute_copy(&obj)
-                }})
-            }}"#
-                ));
-            }
         }
     }
 
@@ -189,6 +183,16 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         ));
     }
 
+    fn visit_input_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {
+        let ident = EscapedIdent::new(ident);
+        let path = object_path_to_string(path);
+        self.args.push(format!(
+            r#"{ARG} {{
+                o: std::mem::ManuallyDrop::new(unsafe {{ std::mem::transmute_copy(&{ident}{path}) }})
+            }}"#
+        ));
+    }
+
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         for i in 0..cnt.get() {
             self.visit_input_object(
@@ -242,6 +246,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.post_call.push(format!(
             "let {BO_STRUCT}({idents}) = unsafe {{ bo.assume_init() }};"
         ));
+        for ident in packer.bo_object_idents() {
+            self.post_call.push(format!("let mut {ident} = {ident};\n"));
+        }
         self.args.push(format!(
             r#"{ARG} {{
                 b: {OUTPUT_BUFFER} {{
@@ -267,22 +274,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             }}"#
         ));
 
-        let objects = r#struct.objects();
-        for (object, _) in objects {
-            let path = super::signature::idents_to_struct_path(&object);
-            let idx = self.args.len();
-            self.post_call.push(format!(
-                r#"unsafe {{ std::ptr::write(
-                    std::ptr::addr_of_mut!((*{escaped_ident}.as_mut_ptr()){path}),
-                    std::mem::transmute(std::mem::ManuallyDrop::take(&mut {ARGS}[{idx}].o))
-                ); }}
-            "#
-            ));
-
-            self.add_output_object();
-        }
+        let mutability = if r#struct.contains_interfaces() {
+            "mut "
+        } else {
+            ""
+        };
         self.post_call.push(format!(
-            "let {escaped_ident} = unsafe {{ {escaped_ident}.assume_init() }};"
+            "let {mutability}{escaped_ident} = unsafe {{ {escaped_ident}.assume_init() }};"
         ));
     }
 
@@ -299,6 +297,20 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.add_output_object();
     }
 
+    fn visit_output_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {
+        let idx = self.args.len();
+        let ident = EscapedIdent::new(ident);
+        let path = object_path_to_string(path);
+        self.post_call.push(format!(
+            r#"unsafe {{ std::ptr::write(
+                    std::ptr::addr_of_mut!({ident}{path}),
+                    std::mem::transmute(std::mem::ManuallyDrop::take(&mut {ARGS}[{idx}].o))
+                ); }}
+            "#
+        ));
+        self.add_output_object();
+    }
+
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         use crate::interface::mink_primitives::{INTERFACES_BASE, OBJECT};
         use std::borrow::Cow;
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index 11ff7cf..3a14dc1 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -13,10 +13,16 @@ use crate::{ident::EscapedIdent, types::namespaced_struct};
 
 use super::serialization::TransportBuffer;
 
+use idlc_codegen::functions::{object_path_to_string, ObjectPath};
+
 #[derive(Debug, Default, Clone)]
 pub struct Invoke {
     pre: Vec<String>,
     post: Vec<String>,
+    /// Shares the inputs once all of their objects are in place.
+    share: Vec<String>,
+    /// Writes the outputs once all of their objects are taken out.
+    write: Vec<String>,
 
     idx: usize,
 }
@@ -30,11 +36,11 @@ impl Invoke {
     }
 
     pub fn pre(&self) -> String {
-        self.pre.concat()
+        self.pre.concat() + &self.share.concat()
     }
 
     pub fn post(&self) -> String {
-        self.post.concat()
+        self.post.concat() + &self.write.concat()
     }
 }
 
@@ -121,9 +127,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             "#,
         ));
         self.pre.push(format!(
-            "let {BI_STRUCT}({idents}) = std::ptr::read(args[0].bi.ptr.cast::<{BI_STRUCT}>());"
+            "let {BI_STRUCT}({idents}) = std::ptr::read({ARGS}[{idx}].bi.ptr.cast::<{BI_STRUCT}>());"
         ));
         self.pre.push(packer.post_bi_assignments());
+        for ident in packer.bi_object_idents() {
+            self.share.push(format!("let {ident} = &{ident};"));
+        }
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, r#struct: &StructInner) {
@@ -136,8 +145,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }}"#
         ));
 
-        let objects = r#struct.objects();
-        if objects.is_empty() {
+        if r#struct.is_primitive_struct() {
             self.pre.push(format!(
                 "let {ident} = &*{ARGS}[{idx}].bi.ptr.cast::<{ty}>();"
             ));
@@ -145,14 +153,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             self.pre.push(format!(
                 "let mut {ident} = std::mem::ManuallyDrop::new(std::ptr::read({ARGS}[{idx}].bi.ptr.cast::<{ty}>()));"
             ));
-            for (object, _) in objects {
-                let path = super::signature::idents_to_struct_path(&object);
-                let idx = self.idx();
-                self.pre.push(format!(
-                    "std::ptr::write(&mut {ident}{path}, std::mem::transmute_copy(&{ARGS}[{idx}].o));"
-                ));
-            }
-            self.pre.push(format!("let {ident} = &{ident};"))
+            self.share.push(format!("let {ident} = &{ident};"))
         }
     }
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
@@ -167,6 +168,15 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
     }
 
+    fn visit_input_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {
+        let idx = self.idx();
+        let ident = EscapedIdent::new(ident);
+        let path = object_path_to_string(path);
+        self.pre.push(format!(
+            "std::ptr::write(std::ptr::addr_of_mut!({ident}{path}), std::mem::transmute_copy(&{ARGS}[{idx}].o));"
+        ));
+    }
+
     fn visit_input_object_array(&mut self, ident: &Ident, _: Option<&str>, cnt: idlc_mir::Count) {
         let ident = EscapedIdent::new(ident);
         let mut definition = format!("let {ident} = &std::mem::ManuallyDrop::new([");
@@ -196,25 +206,13 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }}"#
         ));
 
-        let objects = r#struct.objects();
-        if objects.is_empty() {
+        if r#struct.is_primitive_struct() {
             self.post
                 .push(format!("*{ARGS}[{idx}].b.ptr.cast::<{ty}>() = {ident};\n"));
         } else {
-            let struct_idx = idx;
-            self.post.push(format!(
-                "let mut {ident} = std::mem::ManuallyDrop::new({ident});"
-            ));
-            for (object, _) in objects {
-                let idx = self.idx();
-                let path = super::signature::idents_to_struct_path(&object);
-                self.post.push(format!("{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}{path}.take()));"));
-                self.post.push(format!(
-                    "std::ptr::write(std::ptr::addr_of_mut!({ident}{path}), std::mem::zeroed());"
-                ));
-            }
-            self.post.push(format!(
-                "std::ptr::write({ARGS}[{struct_idx}].b.ptr.cast::<{ty}>(), std::mem::transmute_copy(&{ident}));"
+            self.post.push(format!("let mut {ident} = {ident};"));
+            self.write.push(format!(
+                "std::ptr::write({ARGS}[{idx}].b.ptr.cast::<{ty}>(), {ident});"
             ));
         }
     }
@@ -254,7 +252,10 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             "#,
         ));
         let idents = super::signature::iter_to_string(packer.bo_idents());
-        self.post.push(format!(
+        for ident in packer.bo_object_idents() {
+            self.post.push(format!("let mut {ident} = {ident};"));
+        }
+        self.write.push(format!(
             r#"
             std::ptr::write({ARGS}[{idx}].b.ptr.cast::<{BO_STRUCT}>(), {BO_STRUCT}({idents}));
             "#
@@ -269,6 +270,16 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
     }
 
+    fn visit_output_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {
+        let idx = self.idx();
+        let ident = EscapedIdent::new(ident);
+        let path = object_path_to_string(path);
+        self.post.push(format!("{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}{path}.take()));"));
+        self.post.push(format!(
+            "std::ptr::write(std::ptr::addr_of_mut!({ident}{path}), std::mem::zeroed());"
+        ));
+    }
+
     fn visit_output_object_array(&mut self, ident: &Ident, _: Option<&str>, cnt: idlc_mir::Count) {
         let ident = EscapedIdent::new(ident);
         self.post.push(format!(
@@ -300,6 +311,12 @@ pub fn emit(
         counts.input_objects,
         counts.output_objects,
     );
+    // `ARGS` may be null if there aren't any arguments.
+    let args = if n_args == 0 {
+        String::new()
+    } else {
+        format!("let {ARGS} = std::slice::from_raw_parts_mut({ARGS}, {n_args});")
+    };
     let params = Invoke::new(function);
     let pre = params.pre();
     let post = params.post();
@@ -313,7 +330,7 @@ pub fn emit(
         if {COUNTS} != {PACK_COUNTS}{counts:?} {{
             return std::mem::transmute({GENERIC_ERROR}::GENERIC)
         }}
-        let args = std::slice::from_raw_parts_mut({ARGS}, {n_args});
+        {args}
 
         {pre}
 
diff --git a/idlc_codegen_rust/src/interface/functions/serialization.rs b/idlc_codegen_rust/src/interface/functions/serialization.rs
index b2028fc..fe2e646 100644
--- a/idlc_codegen_rust/src/interface/functions/serialization.rs
+++ b/idlc_codegen_rust/src/interface/functions/serialization.rs
@@ -40,6 +40,11 @@ impl<'a> PackedPrimitives<'a> {
             let ident = EscapedIdent::new(ident);
             match ty {
                 Type::Primitive(_) => ident.to_string(),
+                // A small struct with an object has nothing but that object
+                // which never travels inside of the bundle.
+                Type::SmallStruct(s) if s.contains_interfaces() => {
+                    "unsafe { std::mem::zeroed() }".to_string()
+                }
                 Type::SmallStruct(_) => format!("*{ident}"),
             }
         })
@@ -48,9 +53,13 @@ impl<'a> PackedPrimitives<'a> {
     pub fn post_bi_assignments(&self) -> String {
         let mut assignments = String::new();
         self.0.inputs_by_idents().for_each(|(ident, ty)| {
-            if matches!(ty, Type::SmallStruct(_)) {
+            if let Type::SmallStruct(s) = ty {
                 let ident = EscapedIdent::new(ident);
-                assignments += &format!(r"let {ident} = &{ident};");
+                assignments += &if s.contains_interfaces() {
+                    format!(r"let mut {ident} = std::mem::ManuallyDrop::new({ident});")
+                } else {
+                    format!(r"let {ident} = &{ident};")
+                };
             }
         });
 
@@ -61,6 +70,26 @@ impl<'a> PackedPrimitives<'a> {
         Self::generate_struct(self.0.output_types(), "BO", self.0.packed_output_size())
     }
 
+    /// Idents of the inputs which have objects filled in after unpacking the
+    /// bundle.
+    pub fn bi_object_idents(&self) -> impl Iterator<Item = String> + '_ {
+        Self::object_idents(self.0.inputs_by_idents())
+    }
+
+    /// Same as [`Self::bi_object_idents`] but for the outputs.
+    pub fn bo_object_idents(&self) -> impl Iterator<Item = String> + '_ {
+        Self::object_idents(self.0.outputs_by_idents())
+    }
+
+    fn object_idents<'b>(
+        pairs: impl Iterator<Item = (&'b idlc_mir::Ident, &'b Type)> + 'b,
+    ) -> impl Iterator<Item = String> + 'b {
+        pairs.filter_map(|(ident, ty)| {
+            matches!(ty, Type::SmallStruct(s) if s.contains_interfaces())
+                .then(|| EscapedIdent::new(ident).to_string())
+        })
+    }
+
     pub fn bo_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
         self.0
             .outputs_by_idents()
@@ -84,7 +113,6 @@ impl<'a> PackedPrimitives<'a> {
         let definition = format!(
             r#"
         #[repr(C, packed)]
-        #[derive(Clone, Copy)]
         struct {ident}({fields});
         "#
         );
diff --git a/idlc_codegen_rust/src/interface/functions/signature.rs b/idlc_codegen_rust/src/interface/functions/signature.rs
index f1c35d1..4499ec4 100644
--- a/idlc_codegen_rust/src/interface/functions/signature.rs
+++ b/idlc_codegen_rust/src/interface/functions/signature.rs
@@ -29,12 +29,6 @@ pub fn iter_to_string(iter: impl Iterator<Item = impl AsRef<str>>) -> String {
     acc
 }
 
-pub fn idents_to_struct_path(objects: &[&Ident]) -> String {
-    objects
-        .iter()
-        .fold(String::new(), |acc, x| acc + "." + x.as_ref())
-}
-
 impl Signature {
     pub fn new(function: &idlc_mir::Function) -> Self {
         let mut me = Self::default();
-- 
2.43.0


From eaaed7274646c6eaf7da34732c84abab3d3db7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 05/23] fix: parse comments between any tokens, diagnose bad
 array sizes, reject buffer arrays

---
 idlc_ast/src/pst.rs | 104 ++++++++++++++++++++++----------------------
 1 file changed, 53 insertions(+), 51 deletions(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index dc7d305..3a56228 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -40,18 +40,25 @@ impl From<pest::error::Error<Rule>> for Error {
 pub(crate) struct IDLParser;
 
 macro_rules! ast_unwrap {
-    ($e: expr) => {{
-        #[cfg(debug_assertions)]
-        {
-            $e.unwrap()
-        }
+    ($e: expr) => {
+        // PST to AST is a 1-to-1 transition and can never fail.
+        $e.unwrap()
+    };
+}
 
-        #[cfg(not(debug_assertions))]
-        // Safety: PST to AST is a 1-to-1 transition and can never fail.
-        unsafe {
-            ($e).unwrap_unchecked()
-        }
-    }};
+/// Inner pairs of a rule without the comments, those are admitted in between
+/// any two tokens.
+fn tokens(pair: Pair<'_, Rule>) -> impl Iterator<Item = Pair<'_, Rule>> {
+    pair.into_inner()
+        .filter(|pair| pair.as_rule() != Rule::COMMENT)
+}
+
+fn parse_array_size(pair: Pair<'_, Rule>) -> Count {
+    debug_assert_eq!(pair.as_rule(), Rule::bounded_array);
+    let size = ast_unwrap!(tokens(pair).next());
+    size.as_str().parse().unwrap_or_else(|e| {
+        idlc_errors::unrecoverable!("'{}' isn't a valid array size [{e}]", size.as_str())
+    })
 }
 
 impl From<pest::Span<'_>> for Span {
@@ -84,11 +91,11 @@ impl InterfaceNode {
         match pair.as_rule() {
             Rule::error => Self::Error(Ident {
                 span: pair.as_span().into(),
-                ident: pair.into_inner().nth(1).unwrap().as_str().to_string(),
+                ident: tokens(pair).nth(1).unwrap().as_str().to_string(),
             }),
             Rule::r#const => Self::Const(parse_const(pair, allow_undefined_behavior)),
             Rule::function => {
-                let mut inner = pair.into_inner();
+                let mut inner = tokens(pair);
                 let mut attributes = Vec::new();
                 let function_keyword = ast_unwrap!(inner.next());
                 for attribute in function_keyword.into_inner() {
@@ -139,7 +146,7 @@ impl<'a> From<Pair<'a, Rule>> for FunctionAttribute {
 
 impl<'a> From<Pair<'a, Rule>> for Param {
     fn from(value: Pair<'a, Rule>) -> Self {
-        let mut params = value.into_inner();
+        let mut params = tokens(value);
         let mutability = ast_unwrap!(params.next()).as_str();
         let r#type = ast_unwrap!(params.next());
         let ident = ast_unwrap!(params.next()).into();
@@ -178,21 +185,19 @@ impl From<Pair<'_, Rule>> for Type {
 impl From<Pair<'_, Rule>> for ParamTypeIn {
     fn from(rule: Pair<Rule>) -> Self {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
-        let mut inner = rule.into_inner();
-        let r#type = Type::from(ast_unwrap!(inner.next()));
-        if let Type::Custom(r#type) = &r#type {
-            if r#type == "buffer" {
-                return Self::Value(Type::UntypedBuffer);
+        let mut inner = tokens(rule);
+        let mut r#type = Type::from(ast_unwrap!(inner.next()));
+        if let Type::Custom(ident) = &r#type {
+            if ident == "buffer" {
+                r#type = Type::UntypedBuffer;
             }
         }
 
         if let Some(pair) = inner.next() {
             match pair.as_rule() {
+                Rule::unbounded_array if r#type == Type::UntypedBuffer => Self::Value(r#type),
                 Rule::unbounded_array => Self::Array(r#type, None),
-                Rule::bounded_array => {
-                    let array_len: Count = ast_unwrap!(pair.into_inner().as_str().parse());
-                    Self::Array(r#type, Some(array_len))
-                }
+                Rule::bounded_array => Self::Array(r#type, Some(parse_array_size(pair))),
                 _ => unreachable!(),
             }
         } else {
@@ -203,21 +208,19 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
 impl From<Pair<'_, Rule>> for ParamTypeOut {
     fn from(rule: Pair<Rule>) -> Self {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
-        let mut inner = rule.into_inner();
-        let r#type = Type::from(ast_unwrap!(inner.next()));
-        if let Type::Custom(r#type) = &r#type {
-            if r#type == "buffer" {
-                return Self::Reference(Type::UntypedBuffer);
+        let mut inner = tokens(rule);
+        let mut r#type = Type::from(ast_unwrap!(inner.next()));
+        if let Type::Custom(ident) = &r#type {
+            if ident == "buffer" {
+                r#type = Type::UntypedBuffer;
             }
         }
 
         if let Some(pair) = inner.next() {
             match pair.as_rule() {
+                Rule::unbounded_array if r#type == Type::UntypedBuffer => Self::Reference(r#type),
                 Rule::unbounded_array => Self::Array(r#type, None),
-                Rule::bounded_array => {
-                    let array_len: Count = ast_unwrap!(pair.into_inner().as_str().parse());
-                    Self::Array(r#type, Some(array_len))
-                }
+                Rule::bounded_array => Self::Array(r#type, Some(parse_array_size(pair))),
                 _ => unreachable!(),
             }
         } else {
@@ -253,19 +256,18 @@ fn parse_include(pair: Pair<Rule>) -> Rc<Node> {
 }
 
 fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
-    let mut struct_pst = pair.into_inner().skip(1);
+    let mut struct_pst = tokens(pair).skip(1);
     let ident: Ident = ast_unwrap!(struct_pst.next()).into();
     let mut fields = Vec::<StructField>::new();
     for rule in struct_pst {
         match rule.as_rule() {
             Rule::struct_field => {
-                let mut iter = rule.into_inner();
+                let mut iter = tokens(rule);
                 let r#type = Type::from(ast_unwrap!(iter.next()));
                 let next = ast_unwrap!(iter.next());
                 let (elem, ident) = match next.as_rule() {
                     Rule::bounded_array => {
-                        let array_len: Count =
-                            ast_unwrap!(next.clone().into_inner().as_str().parse());
+                        let array_len = parse_array_size(next.clone());
                         let ident = ast_unwrap!(iter.next()).as_str().to_string();
                         (array_len, ident)
                     }
@@ -284,9 +286,6 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
                     val: (r#type, elem),
                 });
             }
-            Rule::COMMENT => {
-                // Currently unsupported for structs due to varying styles
-            }
             r => unreachable!("Unknown rule `{r:?}`"),
         }
     }
@@ -294,7 +293,7 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
 }
 
 fn parse_const(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Const {
-    let mut inner = pair.into_inner().skip(1);
+    let mut inner = tokens(pair).skip(1);
 
     let ty = ast_unwrap!(inner.next()).as_str();
     let ident = ast_unwrap!(inner.next()).into();
@@ -316,16 +315,16 @@ fn parse_const(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Const {
 
 fn parse_interface(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Rc<Node> {
     let span = Span::from(pair.as_span());
-    let mut interface = pair.into_inner().skip(1);
-    let mut pairs = ast_unwrap!(interface.next()).into_inner();
+    let mut interface = pair
+        .into_inner()
+        .skip(1)
+        .skip_while(|rule| rule.as_rule() == Rule::COMMENT);
+    let mut pairs = tokens(ast_unwrap!(interface.next()));
     let ident = ast_unwrap!(pairs.next()).as_str().to_string();
-    let base = pairs
-        .next()
-        .filter(|base| base.as_rule() == Rule::ident)
-        .map(|base| Ident {
-            span: base.as_span().into(),
-            ident: base.as_str().to_string(),
-        });
+    let base = pairs.next().map(|base| Ident {
+        span: base.as_span().into(),
+        ident: base.as_str().to_string(),
+    });
 
     let mut iface_nodes = Vec::new();
     let mut comment: Option<Documentation> = None;
@@ -337,7 +336,10 @@ fn parse_interface(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Rc<Node>
                 iface_nodes.push(node);
             }
             Rule::COMMENT => {
-                comment = Documentation::try_from(rule).ok();
+                // An ordinary comment doesn't detach the documentation.
+                if let Ok(documentation) = Documentation::try_from(rule) {
+                    comment = Some(documentation);
+                }
             }
             _ => unreachable!(),
         }
@@ -378,7 +380,7 @@ pub fn dump<P: AsRef<std::path::Path>>(path: P) {
     let duration = now.elapsed();
     match pst {
         Ok(pst) => println!("{pst:#?}"),
-        Err(e) => eprintln!("Parsing failed:\n{e}\n"),
+        Err(e) => idlc_errors::unrecoverable!("Parsing failed:\n{e}\n"),
     }
     eprintln!("'dump_pst' completed in {duration:?}");
 }
-- 
2.43.0


From 927616500a56fa17a91e7016bf6a4a926c501e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 06/23] fix: reject methods whose arguments do not fit the
 counts word or its restrictions

---
 idlc_mir_passes/src/interface_verifier.rs | 89 ++++++++++++++++++++++-
 1 file changed, 85 insertions(+), 4 deletions(-)

diff --git a/idlc_mir_passes/src/interface_verifier.rs b/idlc_mir_passes/src/interface_verifier.rs
index 5f44669..1fb4995 100644
--- a/idlc_mir_passes/src/interface_verifier.rs
+++ b/idlc_mir_passes/src/interface_verifier.rs
@@ -5,7 +5,9 @@ use std::collections::HashSet;
 
 use crate::MirCompilerPass;
 
-use idlc_mir::{InterfaceNode, Node, ParamTypeIn, ParamTypeOut, Struct, Type};
+use idlc_mir::{
+    Function, Interface, InterfaceNode, Node, Param, ParamTypeIn, ParamTypeOut, Struct, Type,
+};
 
 pub struct InterfaceVerifier<'mir> {
     mir: &'mir idlc_mir::Mir,
@@ -44,6 +46,7 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                             let mut args_value_in = false;
                             let mut args_array_out = false;
                             let mut args_value_out = false;
+                            let mut multiple_arrays = false;
                             for param in &f.params {
                                 match param {
                                     idlc_mir::Param::In { r#type, ident: _ } => match r#type {
@@ -65,10 +68,17 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                                     );
                                                 }
 
+                                                multiple_arrays |= args_array_in;
                                                 args_array_in = true;
                                             };
-                                            if let Type::Struct(_) | Type::Primitive(_) = t {
-                                                if let Type::Struct(Struct::Big(s)) = t {
+                                            if let Type::Struct(_)
+                                            | Type::Primitive(_)
+                                            | Type::UntypedBuffer = t
+                                            {
+                                                if let Type::Struct(
+                                                    Struct::Big(s) | Struct::Small(s),
+                                                ) = t
+                                                {
                                                     if s.contains_interfaces() {
                                                         idlc_errors::unrecoverable!(
                                                             "Struct with Object inside cannot be used as an array",
@@ -107,9 +117,13 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                                         iface_name, f.ident
                                                     );
                                                 }
+                                                multiple_arrays |= args_array_out;
                                                 args_array_out = true;
                                             };
-                                            if let Type::Struct(_) | Type::Primitive(_) = t {
+                                            if let Type::Struct(_)
+                                            | Type::Primitive(_)
+                                            | Type::UntypedBuffer = t
+                                            {
                                                 if let Type::Struct(
                                                     Struct::Big(s) | Struct::Small(s),
                                                 ) = t
@@ -144,6 +158,13 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                     src.ident, f.ident,
                                 );
                             }
+                            if multiple_arrays {
+                                idlc_errors::unrecoverable!(
+                                    "Interface `{}`, method `{}` has more than one object array in the same direction",
+                                    src.ident, f.ident,
+                                );
+                            }
+                            verify_counts(src, f);
                         }
                     }
                 }
@@ -152,6 +173,66 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
     }
 }
 
+/// Every class of arguments is counted by 4 bits of the invocation's counts.
+const MAX_ARGS: usize = 0xF;
+
+fn verify_counts(src: &Interface, f: &Function) {
+    #[derive(Default)]
+    struct Args {
+        small: usize,
+        buffers: usize,
+        objects: usize,
+    }
+
+    impl Args {
+        fn add(&mut self, ty: &Type, is_array: bool, cnt: usize) {
+            match ty {
+                Type::Interface(_) => self.objects = self.objects.saturating_add(cnt),
+                _ if is_array => self.buffers += 1,
+                Type::UntypedBuffer => self.buffers += 1,
+                Type::Primitive(_) => self.small += 1,
+                Type::Struct(s) => {
+                    if matches!(s, Struct::Small(_)) {
+                        self.small += 1;
+                    } else {
+                        self.buffers += 1;
+                    }
+                    self.objects = self.objects.saturating_add(s.as_ref().n_objects());
+                }
+            }
+        }
+    }
+
+    let mut inputs = Args::default();
+    let mut outputs = Args::default();
+    for param in &f.params {
+        let (args, ty, is_array, cnt) = match param {
+            Param::In { r#type, .. } => match r#type {
+                ParamTypeIn::Array(t, cnt) => (&mut inputs, t, true, *cnt),
+                ParamTypeIn::Value(t) => (&mut inputs, t, false, None),
+            },
+            Param::Out { r#type, .. } => match r#type {
+                ParamTypeOut::Array(t, cnt) => (&mut outputs, t, true, *cnt),
+                ParamTypeOut::Reference(t) => (&mut outputs, t, false, None),
+            },
+        };
+        args.add(ty, is_array, cnt.map_or(1, |cnt| usize::from(cnt.get())));
+    }
+
+    for (args, direction) in [(inputs, "input"), (outputs, "output")] {
+        // Small parameters share one buffer.
+        let buffers = args.buffers + args.small.min(1);
+        for (count, class) in [(buffers, "buffer"), (args.objects, "object")] {
+            if count > MAX_ARGS {
+                idlc_errors::unrecoverable!(
+                    "Interface `{}`, method `{}` has {count} {direction} {class} arguments, only {MAX_ARGS} are supported",
+                    src.ident, f.ident,
+                );
+            }
+        }
+    }
+}
+
 struct CollisionDetector<'a> {
     src: &'a idlc_mir::Interface,
     inner: HashSet<&'a idlc_ast::Ident>,
-- 
2.43.0


From db54202cc8252170f995764d0f9d58bcc1e5f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 07/23] fix: diagnose struct sizes that overflow

---
 idlc_ast_passes/src/struct_verifier.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/idlc_ast_passes/src/struct_verifier.rs b/idlc_ast_passes/src/struct_verifier.rs
index 8e13ec7..434dddf 100644
--- a/idlc_ast_passes/src/struct_verifier.rs
+++ b/idlc_ast_passes/src/struct_verifier.rs
@@ -36,6 +36,8 @@ pub enum Error {
         alignment: usize,
         size: usize,
     },
+    #[error("struct `{parent}` is too large")]
+    StructTooLarge { parent: String },
     #[error("struct `{parent}` contains duplicate field names: `{names:?}`")]
     StructFieldSameName { parent: Ident, names: Vec<Ident> },
 }
@@ -78,7 +80,12 @@ impl StructVerifier {
                     });
                 }
 
-                size += i_size * count;
+                size = i_size
+                    .checked_mul(count)
+                    .and_then(|i_size| size.checked_add(i_size))
+                    .ok_or_else(|| Error::StructTooLarge {
+                        parent: r#struct.to_string(),
+                    })?;
                 alignment = alignment.max(i_alignment);
             }
 
-- 
2.43.0


From de75b187620b58473f6ea8a5da4de55c3b9ad854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 08/23] fix: visit each struct and interface once when looking
 for cycles

---
 idlc_ast_passes/src/cycles.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/idlc_ast_passes/src/cycles.rs b/idlc_ast_passes/src/cycles.rs
index 6a54bc7..62eeab8 100644
--- a/idlc_ast_passes/src/cycles.rs
+++ b/idlc_ast_passes/src/cycles.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use std::rc::Rc;
+use std::{collections::HashSet, rc::Rc};
 
 use idlc_ast::{
     ast::Type,
@@ -14,6 +14,8 @@ pub struct Cycles<'ast> {
     struct_graph: Graph<String>,
     iface_graph: Graph<String>,
     idl_store: &'ast IDLStore,
+    visited_structs: HashSet<String>,
+    visited_ifaces: HashSet<String>,
 }
 
 impl<'ast> Cycles<'ast> {
@@ -22,11 +24,13 @@ impl<'ast> Cycles<'ast> {
             idl_store,
             struct_graph: Graph::new(),
             iface_graph: Graph::new(),
+            visited_structs: HashSet::new(),
+            visited_ifaces: HashSet::new(),
         }
     }
 
     pub fn visit_iface_recurse(&mut self, iface: Rc<idlc_ast::Interface>) {
-        if self.iface_graph.cycle().is_some() {
+        if !self.visited_ifaces.insert(iface.ident.to_string()) {
             return;
         }
 
@@ -39,7 +43,7 @@ impl<'ast> Cycles<'ast> {
     }
 
     pub fn visit_struct_recurse(&mut self, r#struct: Rc<idlc_ast::Struct>) {
-        if self.struct_graph.cycle().is_some() {
+        if !self.visited_structs.insert(r#struct.ident.to_string()) {
             return;
         }
 
-- 
2.43.0


From 8046b580c155103cbebc3f862d9bd3281b6770a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 09/23] fix: apply the restrictions to every reachable file and
 to the library entry point

---
 idlc/src/lib.rs                  | 23 ++++++---
 idlc/src/main.rs                 | 43 +++++++++-------
 idlc_ast_passes/src/idl_store.rs | 86 ++++++++++++++++++--------------
 3 files changed, 90 insertions(+), 62 deletions(-)

diff --git a/idlc/src/lib.rs b/idlc/src/lib.rs
index f4d5160..3d9c31c 100644
--- a/idlc/src/lib.rs
+++ b/idlc/src/lib.rs
@@ -5,6 +5,7 @@ use idlc_ast_passes::{cycles, functions, idl_store::IDLStore, struct_verifier, C
 use idlc_codegen::{Descriptor, Generator};
 use idlc_errors::trace;
 use idlc_mir::mir;
+use idlc_mir_passes::{interface_verifier::InterfaceVerifier, MirCompilerPass};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum Language {
@@ -23,17 +24,27 @@ impl Language {
         trace!("Running `IncludeChecker` pass");
         idl_store.run_pass(&ast)?;
 
-        trace!("Running `FunctionDuplicateParam` pass");
-        functions::Functions::new().run_pass(&ast)?;
+        // Restrictions apply to the included files too.
+        let asts = idl_store.asts();
+        for ast in &asts {
+            trace!("Running `FunctionDuplicateParam` pass");
+            functions::Functions::new().run_pass(ast)?;
 
-        trace!("Running `CycleChecking` pass");
-        let struct_ordering = cycles::Cycles::new(&idl_store).run_pass(&ast)?;
+            trace!("Running `CycleChecking` pass");
+            let struct_ordering = cycles::Cycles::new(&idl_store).run_pass(ast)?;
 
-        trace!("Running `StructVerifier` pass");
-        struct_verifier::StructVerifier::run_pass(&idl_store, &struct_ordering)?;
+            trace!("Running `StructVerifier` pass");
+            struct_verifier::StructVerifier::run_pass(&idl_store, &struct_ordering)?;
+        }
 
         let mir = mir::parse_to_mir(&ast, &mut idl_store);
 
+        trace!("Verifying interfaces");
+        for ast in &asts {
+            let mir = mir::parse_to_mir(ast, &mut idl_store);
+            InterfaceVerifier::new(&mir).run_pass();
+        }
+
         match self {
             Self::Rust => Ok(idlc_codegen_rust::Generator::generate(&mir)),
         }
diff --git a/idlc/src/main.rs b/idlc/src/main.rs
index 8b4bc25..d51589c 100644
--- a/idlc/src/main.rs
+++ b/idlc/src/main.rs
@@ -132,23 +132,27 @@ fn main() {
 
     timer::time!(check(idl_store.run_pass(&ast)), "`IncludeChecker` pass");
 
-    timer::time!(
-        check(idlc_ast_passes::functions::Functions::new().run_pass(&ast)),
-        "`FunctionDuplicateParam` pass"
-    );
-
-    let struct_ordering = timer::time!(
-        check(cycles::Cycles::new(&idl_store).run_pass(&ast)),
-        "`CycleCheck` pass"
-    );
-
-    timer::time!(
-        check(struct_verifier::StructVerifier::run_pass(
-            &idl_store,
-            &struct_ordering,
-        )),
-        "`StructVerifier` pass"
-    );
+    // Restrictions apply to the included files too.
+    let asts = idl_store.asts();
+    for ast in &asts {
+        timer::time!(
+            check(idlc_ast_passes::functions::Functions::new().run_pass(ast)),
+            "`FunctionDuplicateParam` pass"
+        );
+
+        let struct_ordering = timer::time!(
+            check(cycles::Cycles::new(&idl_store).run_pass(ast)),
+            "`CycleCheck` pass"
+        );
+
+        timer::time!(
+            check(struct_verifier::StructVerifier::run_pass(
+                &idl_store,
+                &struct_ordering,
+            )),
+            "`StructVerifier` pass"
+        );
+    }
 
     let mir = timer::time!(mir::parse_to_mir(&ast, &mut idl_store), "Mir");
     if dump == Some(Dumpable::Mir) {
@@ -157,7 +161,10 @@ fn main() {
     }
 
     trace!("Verifying interfaces");
-    interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+    for ast in &asts {
+        let mir = mir::parse_to_mir(ast, &mut idl_store);
+        interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+    }
 
     let marking_cnt = if args.marking.is_some() {
         std::fs::read_to_string(args.marking.unwrap()).expect("Failed to read marking file")
diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index ee7bb5f..54b4cb1 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -9,7 +9,7 @@ use crate::CompilerPass;
 
 use std::{
     cell::RefCell,
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     path::{Path, PathBuf},
     rc::Rc,
 };
@@ -28,6 +28,7 @@ pub struct IDLStore {
     current: Option<PathBuf>,
     cycle: Option<Cycle<String>>,
     graph: Graph<String>,
+    visited: HashSet<PathBuf>,
     include_paths: Vec<PathBuf>,
     allow_undefined_behavior: bool,
 }
@@ -52,12 +53,11 @@ impl Visitor<'_> for IDLStore {
             cano_path.display().to_string(),
         );
         self.cycle = self.graph.cycle();
-        if self.cycle.is_some() {
-            return;
+        // Includes of a file have to be followed only once.
+        if self.cycle.is_none() && self.visited.insert(cano_path.clone()) {
+            let inc_ast = self.get_or_insert(&cano_path);
+            walk_all(self, &inc_ast);
         }
-
-        let inc_ast = self.get_or_insert(&cano_path);
-        walk_all(self, &inc_ast);
         self.current = Some(current);
     }
 }
@@ -80,6 +80,7 @@ impl IDLStore {
             current: None,
             cycle: None,
             graph: Graph::new(),
+            visited: HashSet::new(),
             include_paths: include_paths.to_vec(),
             allow_undefined_behavior,
         }
@@ -98,6 +99,13 @@ impl IDLStore {
         ))
     }
 
+    /// returns every AST loaded so far, ordered by path
+    pub fn asts(&self) -> Vec<Rc<Ast>> {
+        let mut asts: Vec<_> = self.ast_store.borrow().values().map(Rc::clone).collect();
+        asts.sort_by(|a, b| a.tag.cmp(&b.tag));
+        asts
+    }
+
     fn change_to_canonical<'a>(&mut self, current: &'a Path, path: &'a Path) -> PathBuf {
         if self.ast_store.borrow().contains_key(path) {
             return path.to_path_buf();
@@ -117,7 +125,7 @@ impl IDLStore {
 
         for include_path in &self.include_paths {
             let possibility = include_path.join(path);
-            if possibility.exists() {
+            if possibility.is_file() {
                 let canonical = possibility.canonicalize().unwrap();
                 if first.is_none() {
                     first = Some(canonical.clone());
@@ -155,38 +163,40 @@ impl IDLStore {
     fn gather_symbols_from_ast(ast: &Ast, map: &mut HashMap<Symbol, (Rc<Node>, PathBuf)>) {
         let tag = &ast.tag;
         for node in &ast.nodes {
-            assert_eq!(
-                match node.as_ref() {
-                    Node::Struct(s) => map.insert(
-                        Symbol::Struct(s.ident.to_string()),
-                        (Rc::clone(node), tag.clone())
-                    ),
-                    Node::Interface(i) => {
-                        map.insert(
-                            Symbol::Struct(i.ident.to_string()),
-                            (
-                                Rc::new(Node::Struct(Struct::new_object(&i.ident))),
-                                tag.clone(),
-                            ),
-                        )
-                        .or_else(|| {
-                            map.insert(
-                                Symbol::Interface(i.ident.to_string()),
-                                (Rc::clone(node), tag.clone()),
-                            )
-                        })
-                    }
-                    Node::Const(c) => {
-                        map.insert(
-                            Symbol::Const(c.ident.to_string()),
-                            (Rc::clone(node), tag.clone()),
-                        )
-                    }
-                    _ => None,
-                },
-                None,
-                "Duplicate symbol detected!"
+            let Some(ident) = node.ident() else {
+                continue;
+            };
+            let ident = ident.to_string();
+            // Structs, interfaces and constants share a single namespace.
+            assert!(
+                ![
+                    Symbol::Struct(ident.clone()),
+                    Symbol::Interface(ident.clone()),
+                    Symbol::Const(ident.clone()),
+                ]
+                .iter()
+                .any(|symbol| map.contains_key(symbol)),
+                "Duplicate symbol detected! `{ident}`"
             );
+            match node.as_ref() {
+                Node::Struct(_) => {
+                    map.insert(Symbol::Struct(ident), (Rc::clone(node), tag.clone()));
+                }
+                Node::Interface(i) => {
+                    map.insert(
+                        Symbol::Struct(ident.clone()),
+                        (
+                            Rc::new(Node::Struct(Struct::new_object(&i.ident))),
+                            tag.clone(),
+                        ),
+                    );
+                    map.insert(Symbol::Interface(ident), (Rc::clone(node), tag.clone()));
+                }
+                Node::Const(_) => {
+                    map.insert(Symbol::Const(ident), (Rc::clone(node), tag.clone()));
+                }
+                Node::Include(_) => (),
+            }
         }
     }
 
-- 
2.43.0


From 5d8fe34a5a6bfd21e7da58a4198d8d646fbb6485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 10/23] fix: compile in a thread whose stack admits deep
 hierarchies

---
 idlc/src/main.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/idlc/src/main.rs b/idlc/src/main.rs
index d51589c..2344039 100644
--- a/idlc/src/main.rs
+++ b/idlc/src/main.rs
@@ -103,11 +103,26 @@ enum Dumpable {
     Mir,
 }
 
+/// Declarations are walked recursively, hence deep hierarchies don't fit in the
+/// default stack.
+const STACK_SIZE: usize = 512 * 1024 * 1024;
+
 fn main() {
     use clap::Parser as ClapParser;
     idlc_errors::init();
     let args = Cli::parse();
 
+    let compiler = std::thread::Builder::new()
+        .name("main".to_string())
+        .stack_size(STACK_SIZE)
+        .spawn(|| compile(args))
+        .expect("Failed to start the compiler");
+    if compiler.join().is_err() {
+        std::process::exit(101);
+    }
+}
+
+fn compile(args: Cli) {
     let dump = args.dump;
     if dump == Some(Dumpable::Pst) {
         idlc_ast::pst::dump(&args.file);
-- 
2.43.0


From cfa3c1a2d6fb066c5edfe20a6dc0f2dc03417a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:00 +0000
Subject: [PATCH 11/23] fix: java: marshal array and nested struct fields and
 allocate the structs it fills

---
 .../src/interface/functions/implementation.rs | 74 +++---------------
 .../src/interface/functions/invoke.rs         | 71 ++++-------------
 .../src/interface/functions/serialization.rs  | 78 +++++++++----------
 idlc_codegen_java/src/types.rs                | 73 +++++++++++++----
 4 files changed, 117 insertions(+), 179 deletions(-)

diff --git a/idlc_codegen_java/src/interface/functions/implementation.rs b/idlc_codegen_java/src/interface/functions/implementation.rs
index 58af14d..47845e0 100644
--- a/idlc_codegen_java/src/interface/functions/implementation.rs
+++ b/idlc_codegen_java/src/interface/functions/implementation.rs
@@ -6,9 +6,9 @@ use idlc_mir::Ident;
 use crate::interface::mink_primitives::{
     BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, OI, OO, OP_ID,
 };
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, get_struct, put_struct};
 
-use super::serialization::TransportBuffer;
+use super::serialization::{get_output_struct, TransportBuffer};
 
 #[derive(Debug, Clone, Default)]
 pub struct Implementation {
@@ -118,20 +118,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
         let sz = ty.size();
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"buffer_{name}.put{capitalized_ty}(i.{field_ident});
-                    "#
-            ));
-        }
+        let buffer_in = put_struct(ty, &format!("buffer_{name}"), "i");
 
         self.initializations.push(format!(
             r#"if({name} != null) {{
@@ -198,19 +185,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
         let sz = ty.size();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"buffer_{name}.put{capitalized_ty}({name}.{field_ident});
-            "#
-            ));
-        }
+        let fields = put_struct(ty, &format!("buffer_{name}"), &name);
 
         self.initializations.push(format!(
             r#"{BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
@@ -279,22 +254,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bo_sz_idx = self.bo_sz_idx();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
-
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
+        let buffer_in = get_struct(ty, &format!("buffer_{name}"), &format!("{name}[0][i]"));
         let ty = ty.ident.to_string();
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"{name}[0][i].{field_ident} = buffer_{name}.get{capitalized_ty}();
-                    "#
-            ));
-        }
 
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {ident}_len*{sz};
@@ -305,7 +266,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 int {ident}_lenout = Math.min({BO}[{bo_idx}].length/{sz}, {ident}_len);
                 {name}[0] = new {ty}[{ident}_lenout];
                 {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-                for (int i=0;i<{ident}_len;i++) {{
+                for (int i=0;i<{ident}_lenout;i++) {{
+                    {name}[0][i] = new {ty}();
                     {buffer_in}
                 }}
             }}
@@ -374,30 +336,16 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
-        let name = format!("{}_ptr", ident);
+        let buffer = format!("{BUNDLE_OUT}{bo_idx}");
         let sz = ty.size();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{name}[0].{field_ident} = {BUNDLE_OUT}.get{capitalized_ty}();
-                "#
-            ));
-        }
+        let fields = get_output_struct(ident, ty, &buffer);
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {sz};
             "#,
         ));
         self.post_call.push(format!(
-            r#"{BYTE_BUFFER} {BUNDLE_OUT} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-            if ({name} != null) {{
-                {fields}
-            }}
+            r#"{BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
+            {fields}
             "#,
         ));
     }
diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index c8bdd39..817a6c3 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -4,7 +4,7 @@
 use crate::interface::mink_primitives::{
     BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, IMINK_OBJECT, OI, OO, OP_ID,
 };
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, get_struct, put_struct};
 
 use super::serialization::TransportBuffer;
 
@@ -98,24 +98,17 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_input_struct_buffer(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let bi_idx = self.bi_idx();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{ident}[0].{field_ident}={BUNDLE_IN}{bi_idx}.get{capitalized_ty}();
-                    "#
-            ));
-        }
+        let sz = ty.size();
+        let buffer = format!("{BUNDLE_IN}{bi_idx}");
+        let fields = get_struct(ty, &buffer, &format!("{ident}[i]"));
         let ty = ty.ident.to_string();
         self.pre.push(format!(
-            r#"{ty}[] {ident} = new {ty}[1];
-                    {BYTE_BUFFER} {BUNDLE_IN}{bi_idx} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
-                    {fields}
+            r#"{ty}[] {ident} = new {ty}[{BI}[{bi_idx}].length/{sz}];
+                    {BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
+                    for (int i=0;i<{ident}.length;i++) {{
+                        {ident}[i] = new {ty}();
+                        {fields}
+                    }}
                     "#
         ));
     }
@@ -173,19 +166,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bi_idx = self.bi_idx();
         let sz = ty.size();
 
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{ident}.{field_ident}={BUNDLE_IN}{bi_idx}.get{capitalized_ty}();
-                    "#
-            ));
-        }
+        let fields = get_struct(ty, &format!("{BUNDLE_IN}{bi_idx}"), ident);
         let ty = ty.ident.to_string();
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
@@ -256,21 +237,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
 
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"buffer_{ident}.put{capitalized_ty}(i.{field_ident});
-                    "#
-            ));
-        }
-
+        let buffer_in = put_struct(ty, &format!("buffer_{ident}"), "i");
         let ty = ty.ident.to_string();
 
         self.pre.push(format!(
@@ -314,19 +281,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
 
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"buffer_{ident}.put{capitalized_ty}({ident}[0].{field_ident});
-                    "#
-            ));
-        }
+        let fields = put_struct(ty, &format!("buffer_{ident}"), &format!("{ident}[0]"));
         let ty = ty.ident.to_string();
 
         self.pre.push(format!(
diff --git a/idlc_codegen_java/src/interface/functions/serialization.rs b/idlc_codegen_java/src/interface/functions/serialization.rs
index 17854ab..17aff95 100644
--- a/idlc_codegen_java/src/interface/functions/serialization.rs
+++ b/idlc_codegen_java/src/interface/functions/serialization.rs
@@ -5,7 +5,7 @@ use idlc_codegen::serialization::Type;
 
 use crate::interface::mink_primitives::{BUNDLE_IN, BUNDLE_OUT};
 
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, get_struct, put_struct};
 
 #[derive(Debug, Clone)]
 pub struct TransportBuffer {
@@ -97,54 +97,28 @@ impl<'a> PackedPrimitives<'a> {
                         ));
                     } else {
                         fields.push_str(&format!(
-                            r#"if ({ident}_ptr != null) {{
-                    {ident}_ptr[0] = {in_out}.get{capitalized_ty}();
+                            r#"{ty} {ident}_out = {in_out}.get{capitalized_ty}();
+                if ({ident}_ptr != null) {{
+                    {ident}_ptr[0] = {ident}_out;
                 }}
                 "#
                         ));
                     }
                 }
                 Type::SmallStruct(s) => {
-                    let mut field_idents = Vec::new();
-                    let ty = s.ident.to_string();
-                    if is_invoke && in_out == BUNDLE_IN {
-                        fields.push_str(&format!(
-                            r#"{ty} {ident} = new {ty}();
-                    "#,
-                        ));
-                    }
-                    get_struct_pair(s, &mut field_idents, "".to_string());
-                    for (field_ident, field_ty) in field_idents {
-                        let mut capitalized_ty = String::new();
-                        if let idlc_mir::Type::Primitive(p) = field_ty {
-                            capitalized_ty = capitalize_first_letter(change_primitive(p));
-                        }
-                        if is_invoke {
-                            if in_out == BUNDLE_IN {
-                                fields.push_str(&format!(
-                                    r#"{ident}.{field_ident}={BUNDLE_IN}.get{capitalized_ty}();
-                    "#,
-                                ));
-                            } else {
-                                fields.push_str(&format!(
-                                    r#"{BUNDLE_OUT}.put{capitalized_ty}({ident}[0].{field_ident});
-                    "#,
-                                ));
-                            }
-                        } else if in_out == BUNDLE_IN {
-                            fields.push_str(&format!(
-                                r#"{in_out}.put{capitalized_ty}({ident}_val.{field_ident});
-            "#,
-                            ));
-                        } else {
-                            fields.push_str(&format!(
-                                r#"if ({ident}_ptr != null) {{
-                    {ident}_ptr[0].{field_ident} = {in_out}.get{capitalized_ty}();
-                }}
-                "#,
-                            ));
+                    let ty = s.ident.as_ref();
+                    fields.push_str(&match (is_invoke, in_out == BUNDLE_IN) {
+                        (true, true) => {
+                            let get = get_struct(s, in_out, ident);
+                            format!(
+                                r#"{ty} {ident} = new {ty}();
+                    {get}"#
+                            )
                         }
-                    }
+                        (true, false) => put_struct(s, in_out, &format!("{ident}[0]")),
+                        (false, true) => put_struct(s, in_out, &format!("{ident}_val")),
+                        (false, false) => get_output_struct(ident, s, in_out),
+                    });
                 }
             };
         }
@@ -152,3 +126,23 @@ impl<'a> PackedPrimitives<'a> {
         Some(TransportBuffer { definition, size })
     }
 }
+
+/// Statements of a proxy filling the struct the caller supplied for an output.
+pub fn get_output_struct(
+    ident: &idlc_mir::Ident,
+    r#struct: &idlc_mir::StructInner,
+    buffer: &str,
+) -> String {
+    let ty = r#struct.ident.as_ref();
+    let get = get_struct(r#struct, buffer, &format!("{ident}_out"));
+    format!(
+        r#"{ty} {ident}_out = {ident}_ptr != null ? {ident}_ptr[0] : null;
+                if ({ident}_out == null) {{
+                    {ident}_out = new {ty}();
+                }}
+                {get}if ({ident}_ptr != null) {{
+                    {ident}_ptr[0] = {ident}_out;
+                }}
+                "#
+    )
+}
diff --git a/idlc_codegen_java/src/types.rs b/idlc_codegen_java/src/types.rs
index a7bcf58..697aa3e 100644
--- a/idlc_codegen_java/src/types.rs
+++ b/idlc_codegen_java/src/types.rs
@@ -22,27 +22,68 @@ pub fn capitalize_first_letter(s: &str) -> String {
     s.to_case(convert_case::Case::UpperCamel)
 }
 
-pub fn get_struct_pair(
+/// Statements writing all the fields of `value` to the `ByteBuffer` `buffer`.
+pub fn put_struct(r#struct: &idlc_mir::StructInner, buffer: &str, value: &str) -> String {
+    visit_fields(r#struct, value, 0, &|ty, place| match ty {
+        FieldType::Primitive(p) => {
+            let ty = capitalize_first_letter(change_primitive(p));
+            format!("{buffer}.put{ty}({place});\n")
+        }
+        FieldType::Struct(_) => String::new(),
+    })
+}
+
+/// Statements reading all the fields of `value` from the `ByteBuffer` `buffer`.
+pub fn get_struct(r#struct: &idlc_mir::StructInner, buffer: &str, value: &str) -> String {
+    visit_fields(r#struct, value, 0, &|ty, place| match ty {
+        FieldType::Primitive(p) => {
+            let ty = capitalize_first_letter(change_primitive(p));
+            format!("{place} = {buffer}.get{ty}();\n")
+        }
+        FieldType::Struct(s) => {
+            let ty = s.ident.as_ref();
+            format!("if ({place} == null) {{ {place} = new {ty}(); }}\n")
+        }
+    })
+}
+
+enum FieldType<'a> {
+    Primitive(idlc_mir::Primitive),
+    Struct(&'a idlc_mir::StructInner),
+}
+
+fn visit_fields(
     r#struct: &idlc_mir::StructInner,
-    result: &mut Vec<(String, idlc_mir::Type)>,
-    mut parent: String,
-) {
-    if !parent.is_empty() {
-        parent.push('.');
-    }
+    parent: &str,
+    depth: usize,
+    visit: &dyn Fn(FieldType, &str) -> String,
+) -> String {
+    let mut result = String::new();
     for field in &r#struct.fields {
-        match &field.val.0 {
-            idlc_mir::Type::Primitive(_) => {
-                result.push((format!("{parent}{}", field.ident), field.val.0.clone()))
-            }
-            idlc_mir::Type::Struct(idlc_mir::Struct::Big(s) | idlc_mir::Struct::Small(s)) => {
-                let new_parent = format!("{parent}{}", field.ident);
-                get_struct_pair(s, result, new_parent);
+        let (ty, count) = &field.val;
+        let count = count.get();
+        let idx = format!("i_{depth}");
+        let place = if count == 1 {
+            format!("{parent}.{}", field.ident)
+        } else {
+            format!("{parent}.{}[{idx}]", field.ident)
+        };
+        let statements = match ty {
+            &idlc_mir::Type::Primitive(p) => visit(FieldType::Primitive(p), &place),
+            idlc_mir::Type::Struct(s) => {
+                let s = s.as_ref();
+                visit(FieldType::Struct(s), &place) + &visit_fields(s, &place, depth + 1, visit)
             }
             idlc_mir::Type::Interface(_) => {
-                result.push((format!("{parent}{}", field.ident), field.val.0.clone()))
+                unimplemented!("Java codegen doesn't support objects in struct")
             }
-            _ => unreachable!(),
+            idlc_mir::Type::UntypedBuffer => unreachable!(),
+        };
+        if count == 1 {
+            result += &statements;
+        } else {
+            result += &format!("for (int {idx}=0;{idx}<{count};{idx}++) {{\n{statements}}}\n");
         }
     }
+    result
 }
-- 
2.43.0


From bfe582fff34c50f7fe510b62bf2cdab4343cdc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 12/23] fix: java: skeletons decode and size array parameters
 by element

---
 idlc_codegen_java/src/interface/functions/invoke.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index 817a6c3..44849bf 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -82,6 +82,7 @@ impl Invoke {
 impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
         let bi_idx = self.bi_idx();
+        let sz = ty.size();
         let ty = change_primitive(ty);
         let capitalized_ty = capitalize_first_letter(ty);
         let to_buffer = if !capitalized_ty.is_empty() {
@@ -91,7 +92,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
 
         self.pre.push(format!(
-            r#"{ty}[] {ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).{to_buffer}array();
+            r#"{ty}[] {ident} = new {ty}[{BI}[{bi_idx}].length/{sz}];
+                    {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).{to_buffer}get({ident});
                     "#
         ));
     }
@@ -207,11 +209,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"{ty}[][] {ident} = new {ty}[1][];
-                    int {ident}_len = boSizes[{bo_sz_idx}];
+                    int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}.length*{sz}).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}[0].length*{sz}).order({BYTE_ORDER});
                     buffer_{ident}.{to_buffer}put({ident}[0]);
                     {BO}[{bo_idx}] = buffer_{ident}.array();
                     "#,
@@ -242,12 +244,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"{ty}[][] {ident} = new {ty}[1][];
-                    int {ident}_len = boSizes[{bo_sz_idx}];
+                    int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
 
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}.length*{sz}).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}[0].length*{sz}).order({BYTE_ORDER});
                     for ({ty} i : {ident}[0]) {{
                         {buffer_in}
                     }}
-- 
2.43.0


From 0769ad4b81163e7fc9ed299ec1205f41a5090899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 13/23] fix: java: refuse invocations whose counts or sizes do
 not match

---
 .../src/interface/functions/invoke.rs         | 25 ++++++++++++++-----
 idlc_codegen_java/src/interface/mod.rs        |  8 +++++-
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index 44849bf..d536c90 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -138,7 +138,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
                     {ty} {ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).get{capitalized_ty}();
                     "#
@@ -156,7 +156,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bi_idx = self.bi_idx();
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {size}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
                     {BYTE_BUFFER} {BUNDLE_IN} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
                     {definition}
@@ -172,7 +172,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = ty.ident.to_string();
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
                     {ty} {ident} = new {ty}();
                     {BYTE_BUFFER} {BUNDLE_IN}{bi_idx} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
@@ -288,7 +288,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
                     {ty}[] {ident} = new {ty}[1];
                     "#,
@@ -313,7 +313,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
                     {ty}[] {ident} = new {ty}[1];
                     "#,
@@ -339,7 +339,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"if (boSizes[{bo_sz_idx}] != {size}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
                     {bo_assignments}
                     "#,
@@ -370,9 +370,19 @@ pub fn emit(
     function: &idlc_mir::Function,
     current_iface_ident: &str,
     iface_ident: &str,
+    counts: &idlc_codegen::counts::Counter,
     signature: &super::signature::Signature,
 ) -> String {
     let ident = &function.ident;
+    let counts_mismatch = [
+        (BI, counts.input_buffers),
+        ("boSizes", counts.output_buffers),
+        (BO, counts.output_buffers),
+        (OI, counts.input_objects),
+        (OO, counts.output_objects),
+    ]
+    .map(|(array, count)| format!("({array} == null ? 0 : {array}.length) != {count}"))
+    .join(" || ");
 
     let invokes = Invoke::new(function);
     let pre = invokes.pre();
@@ -382,6 +392,9 @@ pub fn emit(
 
     format!(
         r#"case {iface_ident}_{OP_ID}_{ident}: {{
+                    if ({counts_mismatch}) {{
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
+                    }}
                     {pre}
                     (({current_iface_ident})mObj).{ident}({returns});
                     {post}
diff --git a/idlc_codegen_java/src/interface/mod.rs b/idlc_codegen_java/src/interface/mod.rs
index ea30fcd..baca039 100644
--- a/idlc_codegen_java/src/interface/mod.rs
+++ b/idlc_codegen_java/src/interface/mod.rs
@@ -59,7 +59,13 @@ pub fn emit_interface(interface: &Interface, input_name: &str) -> String {
                     &counts,
                     &signature,
                 ));
-                invokes.push_str(&functions::invoke::emit(f, ident, &iface.ident, &signature));
+                invokes.push_str(&functions::invoke::emit(
+                    f,
+                    ident,
+                    &iface.ident,
+                    &counts,
+                    &signature,
+                ));
                 traits.push_str(&functions::traits::emit(f, &documentation, &signature));
             }
         });
-- 
2.43.0


From ee699a3e285aece3ab7d615047ef2a293408339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 14/23] fix: java: parameter names never collide with generated
 locals

---
 .../src/interface/functions/implementation.rs | 22 ++---
 .../src/interface/functions/invoke.rs         | 83 +++++++++++--------
 .../src/interface/functions/serialization.rs  | 14 ++--
 .../src/interface/functions/signature.rs      | 29 +------
 4 files changed, 68 insertions(+), 80 deletions(-)

diff --git a/idlc_codegen_java/src/interface/functions/implementation.rs b/idlc_codegen_java/src/interface/functions/implementation.rs
index 47845e0..fcafba0 100644
--- a/idlc_codegen_java/src/interface/functions/implementation.rs
+++ b/idlc_codegen_java/src/interface/functions/implementation.rs
@@ -97,9 +97,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         };
         self.initializations.push(format!(
             r#"if({name} != null) {{
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
-                buffer_{name}.{to_buffer}put({name});
-                {BI}[{bi_idx}] = buffer_{name}.array();
+                {BYTE_BUFFER} {name}_buffer = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
+                {name}_buffer.{to_buffer}put({name});
+                {BI}[{bi_idx}] = {name}_buffer.array();
             }}
             "#
         ));
@@ -118,15 +118,15 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
         let sz = ty.size();
-        let buffer_in = put_struct(ty, &format!("buffer_{name}"), "i");
+        let buffer_in = put_struct(ty, &format!("{name}_buffer"), "i");
 
         self.initializations.push(format!(
             r#"if({name} != null) {{
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
+                {BYTE_BUFFER} {name}_buffer = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
                 for ({0} i : {name}) {{
                     {buffer_in}
                 }}
-                {BI}[{bi_idx}] = buffer_{name}.array();
+                {BI}[{bi_idx}] = {name}_buffer.array();
             }}
             "#,
             ty.ident
@@ -185,12 +185,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
         let sz = ty.size();
-        let fields = put_struct(ty, &format!("buffer_{name}"), &name);
+        let fields = put_struct(ty, &format!("{name}_buffer"), &name);
 
         self.initializations.push(format!(
-            r#"{BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} {name}_buffer = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
             {fields}
-            {BI}[{bi_idx}] = buffer_{name}.array();
+            {BI}[{bi_idx}] = {name}_buffer.array();
             "#
         ));
     }
@@ -254,7 +254,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bo_sz_idx = self.bo_sz_idx();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
-        let buffer_in = get_struct(ty, &format!("buffer_{name}"), &format!("{name}[0][i]"));
+        let buffer_in = get_struct(ty, &format!("{name}_buffer"), &format!("{name}[0][i]"));
         let ty = ty.ident.to_string();
 
         self.initializations.push(format!(
@@ -265,7 +265,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"if({name} != null) {{
                 int {ident}_lenout = Math.min({BO}[{bo_idx}].length/{sz}, {ident}_len);
                 {name}[0] = new {ty}[{ident}_lenout];
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
+                {BYTE_BUFFER} {name}_buffer = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
                 for (int i=0;i<{ident}_lenout;i++) {{
                     {name}[0][i] = new {ty}();
                     {buffer_in}
diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index d536c90..b220ab5 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -81,6 +81,7 @@ impl Invoke {
 
 impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
+        let name = format!("{ident}_val");
         let bi_idx = self.bi_idx();
         let sz = ty.size();
         let ty = change_primitive(ty);
@@ -92,23 +93,24 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
 
         self.pre.push(format!(
-            r#"{ty}[] {ident} = new {ty}[{BI}[{bi_idx}].length/{sz}];
-                    {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).{to_buffer}get({ident});
+            r#"{ty}[] {name} = new {ty}[{BI}[{bi_idx}].length/{sz}];
+                    {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).{to_buffer}get({name});
                     "#
         ));
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
+        let name = format!("{ident}_val");
         let bi_idx = self.bi_idx();
         let sz = ty.size();
         let buffer = format!("{BUNDLE_IN}{bi_idx}");
-        let fields = get_struct(ty, &buffer, &format!("{ident}[i]"));
+        let fields = get_struct(ty, &buffer, &format!("{name}[i]"));
         let ty = ty.ident.to_string();
         self.pre.push(format!(
-            r#"{ty}[] {ident} = new {ty}[{BI}[{bi_idx}].length/{sz}];
+            r#"{ty}[] {name} = new {ty}[{BI}[{bi_idx}].length/{sz}];
                     {BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
-                    for (int i=0;i<{ident}.length;i++) {{
-                        {ident}[i] = new {ty}();
+                    for (int i=0;i<{name}.length;i++) {{
+                        {name}[i] = new {ty}();
                         {fields}
                     }}
                     "#
@@ -121,16 +123,18 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         _ty: Option<&str>,
         _cnt: idlc_mir::Count,
     ) {
+        let name = format!("{ident}_val");
         self.pre.push(format!(
-            r#"IMinkObject[] {ident}_val = new IMinkObject[{OI}.length];
+            r#"IMinkObject[] {name} = new IMinkObject[{OI}.length];
                     for (int i=0;i<{OI}.length;i++) {{
-                        {ident}_val[i] = {OI}[i];
+                        {name}[i] = {OI}[i];
                     }}
                     "#
         ));
     }
 
     fn visit_input_primitive(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
+        let name = format!("{ident}_val");
         let bi_idx = self.bi_idx();
         let sz = ty.size();
         let ty = change_primitive(ty);
@@ -140,7 +144,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
                         throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
-                    {ty} {ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).get{capitalized_ty}();
+                    {ty} {name} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).get{capitalized_ty}();
                     "#
         ));
     }
@@ -165,16 +169,17 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_big_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
+        let name = format!("{ident}_val");
         let bi_idx = self.bi_idx();
         let sz = ty.size();
 
-        let fields = get_struct(ty, &format!("{BUNDLE_IN}{bi_idx}"), ident);
+        let fields = get_struct(ty, &format!("{BUNDLE_IN}{bi_idx}"), &name);
         let ty = ty.ident.to_string();
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
                         throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
-                    {ty} {ident} = new {ty}();
+                    {ty} {name} = new {ty}();
                     {BYTE_BUFFER} {BUNDLE_IN}{bi_idx} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
                     {fields}
                     "#
@@ -185,17 +190,19 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_object(&mut self, ident: &idlc_mir::Ident, _: Option<&str>) {
+        let name = format!("{ident}_val");
         let io_idx = self.io_idx();
         let ty = IMINK_OBJECT.to_string();
 
         self.pre.push(format!(
-            r#"{ty} {ident};
-                    {ident} = {OI}[{io_idx}];
+            r#"{ty} {name};
+                    {name} = {OI}[{io_idx}];
                     "#
         ));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
+        let name = format!("{ident}_ptr");
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
@@ -208,52 +215,54 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
 
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][];
+            r#"{ty}[][] {name} = new {ty}[1][];
                     int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}[0].length*{sz}).order({BYTE_ORDER});
-                    buffer_{ident}.{to_buffer}put({ident}[0]);
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
+            r#"{BYTE_BUFFER} {name}_buffer = {BYTE_BUFFER}.allocate({name}[0].length*{sz}).order({BYTE_ORDER});
+                    {name}_buffer.{to_buffer}put({name}[0]);
+                    {BO}[{bo_idx}] = {name}_buffer.array();
                     "#,
         ));
     }
 
     fn visit_output_untyped_buffer(&mut self, ident: &idlc_mir::Ident) {
+        let name = format!("{ident}_ptr");
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         self.pre.push(format!(
-            r#"byte[][] {ident} = new byte[1][];
+            r#"byte[][] {name} = new byte[1][];
                     int {ident}_len = boSizes[{bo_sz_idx}];
                     "#,
         ));
         self.post.push(format!(
-            r#"{BO}[{bo_idx}]={ident}[0];
+            r#"{BO}[{bo_idx}]={name}[0];
                     "#,
         ));
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
+        let name = format!("{ident}_ptr");
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
 
-        let buffer_in = put_struct(ty, &format!("buffer_{ident}"), "i");
+        let buffer_in = put_struct(ty, &format!("{name}_buffer"), "i");
         let ty = ty.ident.to_string();
 
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][];
+            r#"{ty}[][] {name} = new {ty}[1][];
                     int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
 
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}[0].length*{sz}).order({BYTE_ORDER});
-                    for ({ty} i : {ident}[0]) {{
+            r#"{BYTE_BUFFER} {name}_buffer = {BYTE_BUFFER}.allocate({name}[0].length*{sz}).order({BYTE_ORDER});
+                    for ({ty} i : {name}[0]) {{
                         {buffer_in}
                     }}
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
+                    {BO}[{bo_idx}] = {name}_buffer.array();
                     "#,
         ));
     }
@@ -264,39 +273,41 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         _ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
+        let name = format!("{ident}_ptr");
         let ty = IMINK_OBJECT.to_string();
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][{OO}.length];
+            r#"{ty}[][] {name} = new {ty}[1][{OO}.length];
                     int {ident}_len = oo.length;
                     "#,
         ));
         self.post.push(format!(
             r#"for (int i=0;i<{cnt};i++) {{
-                        oo[i] = {ident}[0][i];
+                        oo[i] = {name}[0][i];
                     }}
                     "#
         ));
     }
 
     fn visit_output_big_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
+        let name = format!("{ident}_ptr");
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
 
-        let fields = put_struct(ty, &format!("buffer_{ident}"), &format!("{ident}[0]"));
+        let fields = put_struct(ty, &format!("{name}_buffer"), &format!("{name}[0]"));
         let ty = ty.ident.to_string();
 
         self.pre.push(format!(
             r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
                         throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
-                    {ty}[] {ident} = new {ty}[1];
+                    {ty}[] {name} = new {ty}[1];
                     "#,
         ));
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} {name}_buffer = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
                     {fields}
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
+                    {BO}[{bo_idx}] = {name}_buffer.array();
                     "#,
         ));
     }
@@ -305,6 +316,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_primitive(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
+        let name = format!("{ident}_ptr");
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
@@ -315,11 +327,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
                         throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
-                    {ty}[] {ident} = new {ty}[1];
+                    {ty}[] {name} = new {ty}[1];
                     "#,
         ));
         self.post.push(format!(
-            r#"{BO}[{bo_idx}] = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER}).put{capitalized_ty}({ident}[0]).array();
+            r#"{BO}[{bo_idx}] = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER}).put{capitalized_ty}({name}[0]).array();
                     "#,
         ));
     }
@@ -353,14 +365,15 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_object(&mut self, ident: &idlc_mir::Ident, _: Option<&str>) {
+        let name = format!("{ident}_ptr");
         let oo_idx = self.oo_idx();
         let ty = IMINK_OBJECT.to_string();
         self.pre.push(format!(
-            r#"{ty}[] {ident} = new {ty}[1];
+            r#"{ty}[] {name} = new {ty}[1];
                     "#,
         ));
         self.post.push(format!(
-            r#"{OO}[{oo_idx}] = {ident}[0];
+            r#"{OO}[{oo_idx}] = {name}[0];
                     "#
         ));
     }
@@ -388,7 +401,7 @@ pub fn emit(
     let pre = invokes.pre();
     let post = invokes.post();
 
-    let returns = super::signature::iter_to_string(signature.return_idents());
+    let returns = super::signature::iter_to_string(signature.idents());
 
     format!(
         r#"case {iface_ident}_{OP_ID}_{ident}: {{
diff --git a/idlc_codegen_java/src/interface/functions/serialization.rs b/idlc_codegen_java/src/interface/functions/serialization.rs
index 17aff95..34579f8 100644
--- a/idlc_codegen_java/src/interface/functions/serialization.rs
+++ b/idlc_codegen_java/src/interface/functions/serialization.rs
@@ -37,14 +37,14 @@ impl<'a> PackedPrimitives<'a> {
             &Type::Primitive(p) => {
                 let ty = change_primitive(p);
                 assignments += &format!(
-                    r#"{ty}[] {ident} = new {ty}[1];
+                    r#"{ty}[] {ident}_ptr = new {ty}[1];
                     "#
                 );
             }
             Type::SmallStruct(s) => {
                 let ty = s.ident.to_string();
                 assignments += &format!(
-                    r#"{ty}[] {ident} = new {ty}[1];
+                    r#"{ty}[] {ident}_ptr = new {ty}[1];
                     "#
                 );
             }
@@ -81,12 +81,12 @@ impl<'a> PackedPrimitives<'a> {
                     if is_invoke {
                         if in_out == BUNDLE_IN {
                             fields.push_str(&format!(
-                                r#"{ty} {ident}={in_out}.get{capitalized_ty}();
+                                r#"{ty} {ident}_val={in_out}.get{capitalized_ty}();
                     "#
                             ));
                         } else {
                             fields.push_str(&format!(
-                                r#"{in_out}.put{capitalized_ty}({ident}[0]);
+                                r#"{in_out}.put{capitalized_ty}({ident}_ptr[0]);
                     "#
                             ));
                         }
@@ -109,13 +109,13 @@ impl<'a> PackedPrimitives<'a> {
                     let ty = s.ident.as_ref();
                     fields.push_str(&match (is_invoke, in_out == BUNDLE_IN) {
                         (true, true) => {
-                            let get = get_struct(s, in_out, ident);
+                            let get = get_struct(s, in_out, &format!("{ident}_val"));
                             format!(
-                                r#"{ty} {ident} = new {ty}();
+                                r#"{ty} {ident}_val = new {ty}();
                     {get}"#
                             )
                         }
-                        (true, false) => put_struct(s, in_out, &format!("{ident}[0]")),
+                        (true, false) => put_struct(s, in_out, &format!("{ident}_ptr[0]")),
                         (false, true) => put_struct(s, in_out, &format!("{ident}_val")),
                         (false, false) => get_output_struct(ident, s, in_out),
                     });
diff --git a/idlc_codegen_java/src/interface/functions/signature.rs b/idlc_codegen_java/src/interface/functions/signature.rs
index 9b2246a..b1b7d1a 100644
--- a/idlc_codegen_java/src/interface/functions/signature.rs
+++ b/idlc_codegen_java/src/interface/functions/signature.rs
@@ -8,7 +8,6 @@ use crate::types::change_primitive;
 #[derive(Debug, Clone, Default)]
 pub struct Signature {
     inputs: Vec<(String, String)>,
-    returns: Vec<(String, String)>,
 }
 
 pub fn iter_to_string(iter: impl Iterator<Item = impl AsRef<str>>) -> String {
@@ -41,8 +40,8 @@ impl Signature {
     }
 
     #[inline]
-    pub fn return_idents(&self) -> impl Iterator<Item = &str> {
-        self.returns.iter().map(|(ident, _)| ident.as_str())
+    pub fn idents(&self) -> impl Iterator<Item = &str> {
+        self.inputs.iter().map(|(ident, _)| ident.as_str())
     }
 }
 
@@ -50,13 +49,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
         let ty = format!("{}[]", change_primitive(ty));
         self.inputs.push((format!("{}_val", ident), ty.to_string()));
-        self.returns.push((ident.to_string(), ty));
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
         let new_ty = format!("{}[]", ty.ident);
         self.inputs.push((format!("{}_val", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
 
     fn visit_input_object_array(
@@ -69,26 +66,20 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         let ty = format!("{IMINK_OBJECT}[]");
 
         self.inputs.push((format!("{}_val", ident), ty.to_string()));
-        self.returns
-            .push((format!("{}_val", ident), ty.to_string()));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
         self.inputs
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
-        self.returns
-            .push((ident.to_string(), change_primitive(ty).to_string()));
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("{}_val", ident), ty.ident.to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("{}_val", ident), ty.ident.to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
@@ -96,8 +87,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
         self.inputs
             .push((format!("{}_val", ident), IMINK_OBJECT.to_string()));
-        self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
@@ -105,8 +94,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((format!("{}_ptr", ident), ty.to_string()));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns.push((ident.to_string(), ty.to_string()));
-        self.returns.push((format!("{}_len", ident), ty));
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
@@ -114,9 +101,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((format!("{}_ptr", ident), new_ty));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
-        self.returns
-            .push((format!("{}_len", ident), ty.ident.to_string()));
     }
 
     fn visit_output_object_array(&mut self, ident: &Ident, _: Option<&str>, _cnt: idlc_mir::Count) {
@@ -126,27 +110,20 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((format!("{}_ptr", ident), ty));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
-        self.returns
-            .push((format!("{}_len", ident), "int".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
         let ty = format!("{}[]", change_primitive(ty));
         self.inputs.push((format!("{}_ptr", ident), ty.to_string()));
-        self.returns.push((ident.to_string(), ty));
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         let new_ty = format!("{}[]", ty.ident);
         self.inputs.push((format!("{}_ptr", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         let new_ty = format!("{}[]", ty.ident);
         self.inputs.push((format!("{}_ptr", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
@@ -154,7 +131,5 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
         let ty = format!("{IMINK_OBJECT}[]");
         self.inputs.push((format!("{}_ptr", ident), ty));
-        self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
     }
 }
-- 
2.43.0


From c1ae7a861a4fa7c7d47fec2c49d8f15fb1d13df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:38 +0000
Subject: [PATCH 15/23] fix: emit constants with their exact value and type in
 every backend

Float constants used undefined macros in C and C++, integral literals in
Rust; minimum values and leading zeros changed value or type; Java refused
unsigned and 64-bit values; hexadecimal float literals were parsed as decimal.
---
 idlc_ast/src/ast.rs                    |  12 +++
 idlc_codegen/src/lib.rs                |   1 +
 idlc_codegen/src/literal.rs            | 109 +++++++++++++++++++++++++
 idlc_codegen_c/src/globals.rs          |   7 +-
 idlc_codegen_c/src/interface/mod.rs    |  12 ++-
 idlc_codegen_c/src/types.rs            |  27 +++++-
 idlc_codegen_cpp/src/generator.rs      |  11 +--
 idlc_codegen_cpp/src/interface/mod.rs  |  22 +++--
 idlc_codegen_java/src/globals.rs       |   4 +-
 idlc_codegen_java/src/interface/mod.rs |   4 +-
 idlc_codegen_java/src/types.rs         |  24 ++++++
 idlc_codegen_rust/src/globals.rs       |   6 +-
 12 files changed, 206 insertions(+), 33 deletions(-)
 create mode 100644 idlc_codegen/src/literal.rs

diff --git a/idlc_ast/src/ast.rs b/idlc_ast/src/ast.rs
index bc57c3c..a3b7bd8 100644
--- a/idlc_ast/src/ast.rs
+++ b/idlc_ast/src/ast.rs
@@ -295,6 +295,18 @@ impl Primitive {
                 i64::from_str_radix(value, radix)?;
                 Ok(Self::Int64)
             }
+            "float32" | "float64" if radix == 16 => {
+                let magnitude = value
+                    .chars()
+                    .filter_map(|c| c.to_digit(16))
+                    .fold(0.0, |magnitude, digit| magnitude * 16.0 + f64::from(digit));
+                if magnitude.is_infinite()
+                    || r#type == "float32" && (magnitude as f32).is_infinite()
+                {
+                    return Err(Error::FloatIsInfinite);
+                }
+                Self::try_from(r#type)
+            }
             "float32" => {
                 if value.parse::<f32>()?.is_infinite() {
                     return Err(Error::FloatIsInfinite);
diff --git a/idlc_codegen/src/lib.rs b/idlc_codegen/src/lib.rs
index 9bb04af..c4ad2b9 100644
--- a/idlc_codegen/src/lib.rs
+++ b/idlc_codegen/src/lib.rs
@@ -4,6 +4,7 @@
 pub mod counts;
 pub mod documentation;
 pub mod functions;
+pub mod literal;
 pub mod marking;
 pub mod order;
 pub mod serialization;
diff --git a/idlc_codegen/src/literal.rs b/idlc_codegen/src/literal.rs
new file mode 100644
index 0000000..7551765
--- /dev/null
+++ b/idlc_codegen/src/literal.rs
@@ -0,0 +1,109 @@
+// Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
+// SPDX-License-Identifier: BSD-3-Clause
+
+//! Literals of constants, in the parts which target languages spell differently.
+
+use idlc_mir::{Const, Primitive};
+
+pub struct Literal<'a> {
+    pub negative: bool,
+    hex: bool,
+    /// Integer part, without leading zeros.
+    digits: &'a str,
+    fraction: Option<&'a str>,
+    r#type: Primitive,
+}
+
+impl<'a> Literal<'a> {
+    #[must_use]
+    pub fn new(r#const: &'a Const) -> Self {
+        let value = r#const.value.as_str();
+        let (negative, value) = match value.strip_prefix('-') {
+            Some(value) => (true, value),
+            None => (false, value),
+        };
+        let (hex, value) = match value.strip_prefix("0x") {
+            Some(value) => (true, value),
+            None => (false, value),
+        };
+        let (integer, fraction) = match value.split_once('.') {
+            Some((integer, fraction)) => (integer, Some(fraction)),
+            None => (value, None),
+        };
+        let digits = integer.trim_start_matches('0');
+        Self {
+            negative,
+            hex,
+            digits: if digits.is_empty() { "0" } else { digits },
+            fraction,
+            r#type: r#const.r#type,
+        }
+    }
+
+    #[must_use]
+    pub fn is_hex(&self) -> bool {
+        self.hex
+    }
+
+    /// Magnitude of an integer which fits 64 bits.
+    #[must_use]
+    pub fn magnitude(&self) -> Option<u64> {
+        if self.fraction.is_some() {
+            return None;
+        }
+        u64::from_str_radix(self.digits, if self.hex { 16 } else { 10 }).ok()
+    }
+
+    /// The literal without leading zeros, which several languages read as octal.
+    #[must_use]
+    pub fn integer(&self) -> String {
+        let sign = if self.negative { "-" } else { "" };
+        let prefix = if self.hex { "0x" } else { "" };
+        let fraction = self.fraction.map(|f| format!(".{f}")).unwrap_or_default();
+        format!("{sign}{prefix}{}{fraction}", self.digits)
+    }
+
+    /// The literal in decimal with a fractional part.
+    #[must_use]
+    pub fn decimal(&self) -> String {
+        let digits = if self.hex {
+            hex_to_decimal(self.digits)
+        } else {
+            self.digits.to_string()
+        };
+        let magnitude = format!("{digits}.{}", self.fraction.unwrap_or("0"));
+        // Literals which round to zero are refused by some of the compilers.
+        let is_zero = match self.r#type {
+            Primitive::Float32 => magnitude.parse() == Ok(0f32),
+            _ => magnitude.parse() == Ok(0f64),
+        };
+        let sign = if self.negative { "-" } else { "" };
+        if is_zero {
+            format!("{sign}0.0")
+        } else {
+            format!("{sign}{magnitude}")
+        }
+    }
+}
+
+fn hex_to_decimal(hex: &str) -> String {
+    // Decimal digits, least significant first.
+    let mut decimal = vec![0u32];
+    for digit in hex.chars().filter_map(|c| c.to_digit(16)) {
+        let mut carry = digit;
+        for d in &mut decimal {
+            let value = *d * 16 + carry;
+            *d = value % 10;
+            carry = value / 10;
+        }
+        while carry > 0 {
+            decimal.push(carry % 10);
+            carry /= 10;
+        }
+    }
+    decimal
+        .iter()
+        .rev()
+        .filter_map(|d| char::from_digit(*d, 10))
+        .collect()
+}
diff --git a/idlc_codegen_c/src/globals.rs b/idlc_codegen_c/src/globals.rs
index c73fbe9..f8cbddd 100644
--- a/idlc_codegen_c/src/globals.rs
+++ b/idlc_codegen_c/src/globals.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Const, StructInner};
 
-use crate::types::{change_const_primitive, change_primitive};
+use crate::types::{change_primitive, const_value};
 
 pub fn emit_include(include: &std::path::Path) -> String {
     let inc_name = include.display().to_string().replace(".idl", "");
@@ -35,8 +35,7 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
 
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_string();
-    let ty = change_const_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let value = const_value(r#const);
 
-    format!("#define {ident} {ty}({value})\n\n")
+    format!("#define {ident} {value}\n\n")
 }
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index 10619f1..e985a60 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -6,7 +6,7 @@ use idlc_mir::{Interface, InterfaceNode};
 pub mod functions;
 pub mod variable_names;
 
-use crate::types::change_const_primitive;
+use crate::types::const_value;
 
 pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) -> String {
     let ident = interface.ident.to_string();
@@ -21,11 +21,10 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
         iface.nodes.iter().for_each(|node| match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
-                    "#define {}_{} {}({})\n",
+                    "#define {}_{} {}\n",
                     ident,
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_value(c)
                 ));
             }
             InterfaceNode::Error(e) => {
@@ -59,11 +58,10 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
         match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
-                    "#define {}_{} {}({})\n",
+                    "#define {}_{} {}\n",
                     ident,
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_value(c)
                 ));
             }
             InterfaceNode::Error(e) => {
diff --git a/idlc_codegen_c/src/types.rs b/idlc_codegen_c/src/types.rs
index 1c7c2de..9ee7a37 100644
--- a/idlc_codegen_c/src/types.rs
+++ b/idlc_codegen_c/src/types.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-pub const fn change_const_primitive(primitive: idlc_mir::Primitive) -> &'static str {
+const fn change_const_primitive(primitive: idlc_mir::Primitive) -> &'static str {
     match primitive {
         idlc_mir::Primitive::Uint8 => "UINT8_C",
         idlc_mir::Primitive::Uint16 => "UINT16_C",
@@ -11,8 +11,29 @@ pub const fn change_const_primitive(primitive: idlc_mir::Primitive) -> &'static
         idlc_mir::Primitive::Int16 => "INT16_C",
         idlc_mir::Primitive::Int32 => "INT32_C",
         idlc_mir::Primitive::Int64 => "INT64_C",
-        idlc_mir::Primitive::Float32 => "FLOAT",
-        idlc_mir::Primitive::Float64 => "DOUBLE",
+        idlc_mir::Primitive::Float32 | idlc_mir::Primitive::Float64 => "",
+    }
+}
+
+/// Expression with the value of the constant.
+pub fn const_value(r#const: &idlc_mir::Const) -> String {
+    let literal = idlc_codegen::literal::Literal::new(r#const);
+    let ty = change_const_primitive(r#const.r#type);
+    match r#const.r#type {
+        idlc_mir::Primitive::Float32 => format!("{}f", literal.decimal()),
+        idlc_mir::Primitive::Float64 => literal.decimal(),
+        // There are no negative literals, the magnitude has to be in range by itself.
+        idlc_mir::Primitive::Int32
+            if literal.negative && literal.magnitude() == Some(i32::MIN.unsigned_abs().into()) =>
+        {
+            format!("(-{ty}({}) - 1)", i32::MAX)
+        }
+        idlc_mir::Primitive::Int64
+            if literal.negative && literal.magnitude() == Some(i64::MIN.unsigned_abs()) =>
+        {
+            format!("(-{ty}({}) - 1)", i64::MAX)
+        }
+        _ => format!("{ty}({})", literal.integer()),
     }
 }
 
diff --git a/idlc_codegen_cpp/src/generator.rs b/idlc_codegen_cpp/src/generator.rs
index ceaaefa..c781186 100644
--- a/idlc_codegen_cpp/src/generator.rs
+++ b/idlc_codegen_cpp/src/generator.rs
@@ -2,7 +2,7 @@
 // SPDX-License-Identifier: BSD-3-Clause
 
 use idlc_codegen_c::globals::emit_struct;
-use idlc_codegen_c::types::{change_const_primitive, change_primitive};
+use idlc_codegen_c::types::{change_primitive, const_value};
 use idlc_mir::Node;
 
 use crate::interface::{emit_interface_impl, emit_interface_invoke};
@@ -31,13 +31,10 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
                 }
                 Node::Const(c) => {
                     let ident = c.ident.to_string();
-                    let cnt_ty = change_primitive(c.r#type);
-                    let ty = change_const_primitive(c.r#type);
-                    let value = &c.value;
+                    let ty = change_primitive(c.r#type);
+                    let value = const_value(c);
 
-                    result.push_str(&format!(
-                        "static const {cnt_ty} {ident} = {ty}({value});\n\n"
-                    ));
+                    result.push_str(&format!("static const {ty} {ident} = {value};\n\n"));
                 }
                 Node::Struct(s) => {
                     result.push_str(&emit_struct(s.as_ref()));
diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index d3fa70e..c13f4e6 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -5,10 +5,18 @@ use idlc_mir::{Interface, InterfaceNode};
 
 mod functions;
 
-use idlc_codegen_c::types::{change_const_primitive, change_primitive};
+use idlc_codegen_c::types::{change_primitive, const_value};
 
 /// Methods of the emitted class are defined in `definitions`, so that those can
 /// use any other class.
+/// Only integral members are initialized in the class when they are just `const`.
+const fn const_specifier(primitive: idlc_mir::Primitive) -> &'static str {
+    match primitive {
+        idlc_mir::Primitive::Float32 | idlc_mir::Primitive::Float64 => "constexpr",
+        _ => "const",
+    }
+}
+
 pub fn emit_interface_impl(interface: &Interface, definitions: &mut String) -> String {
     let ident = interface.ident.to_string();
 
@@ -24,11 +32,11 @@ pub fn emit_interface_impl(interface: &Interface, definitions: &mut String) -> S
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
                     r#"
-    static const {} {} = {}({});"#,
+    static {} {} {} = {};"#,
+                    const_specifier(c.r#type),
                     change_primitive(c.r#type),
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_value(c)
                 ));
             }
             InterfaceNode::Error(e) => {
@@ -63,11 +71,11 @@ pub fn emit_interface_impl(interface: &Interface, definitions: &mut String) -> S
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
                     r#"
-    static const {} {} = {}({});"#,
+    static {} {} {} = {};"#,
+                    const_specifier(c.r#type),
                     change_primitive(c.r#type),
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_value(c)
                 ));
             }
             InterfaceNode::Error(e) => {
diff --git a/idlc_codegen_java/src/globals.rs b/idlc_codegen_java/src/globals.rs
index f6aec73..3980b4f 100644
--- a/idlc_codegen_java/src/globals.rs
+++ b/idlc_codegen_java/src/globals.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Const, StructInner};
 
-use crate::types::change_primitive;
+use crate::types::{change_primitive, const_value};
 
 pub fn emit_struct(r#struct: &StructInner) -> String {
     let mut contents = String::new();
@@ -45,7 +45,7 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_string(); // Const ident should be uppercase, but leave it for now for backward compatibility.
     let ty = change_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let value = const_value(r#const);
 
     format!(
         r#"{ty} {ident} = {value};
diff --git a/idlc_codegen_java/src/interface/mod.rs b/idlc_codegen_java/src/interface/mod.rs
index baca039..73b92b7 100644
--- a/idlc_codegen_java/src/interface/mod.rs
+++ b/idlc_codegen_java/src/interface/mod.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use crate::types::change_primitive;
+use crate::types::{change_primitive, const_value};
 
 use idlc_mir::{Interface, InterfaceNode};
 
@@ -24,7 +24,7 @@ pub fn emit_interface(interface: &Interface, input_name: &str) -> String {
             InterfaceNode::Const(r#const) => {
                 let const_ident = r#const.ident.to_uppercase();
                 let ty = change_primitive(r#const.r#type);
-                let value = &r#const.value;
+                let value = const_value(r#const);
                 constants.push_str(&format!(
                     r#"{ty} {ident}_{const_ident} = {value};
     "#
diff --git a/idlc_codegen_java/src/types.rs b/idlc_codegen_java/src/types.rs
index 697aa3e..79682cc 100644
--- a/idlc_codegen_java/src/types.rs
+++ b/idlc_codegen_java/src/types.rs
@@ -15,6 +15,30 @@ pub const fn change_primitive(primitive: idlc_mir::Primitive) -> &'static str {
     }
 }
 
+/// Expression with the value of the constant, unsigned types keep their bits
+/// in the signed types which carry them.
+pub fn const_value(r#const: &idlc_mir::Const) -> String {
+    use idlc_mir::Primitive;
+
+    let literal = idlc_codegen::literal::Literal::new(r#const);
+    let value = literal.integer();
+    let ty = change_primitive(r#const.r#type);
+    match (r#const.r#type, literal.magnitude()) {
+        (Primitive::Float32, _) => format!("{}f", literal.decimal()),
+        (Primitive::Float64, _) => literal.decimal(),
+        (Primitive::Uint8, Some(128..)) => format!("({ty}) {value}"),
+        (Primitive::Int16, Some(1..)) if literal.negative => format!("({ty}) {value}"),
+        (Primitive::Uint32, Some(0x8000_0000..)) if !literal.is_hex() => {
+            format!("({ty}) {value}L")
+        }
+        (Primitive::Uint64, Some(magnitude @ 0x8000_0000_0000_0000..)) => {
+            format!("0x{magnitude:x}L")
+        }
+        (Primitive::Uint64 | Primitive::Int64, _) => format!("{value}L"),
+        _ => value,
+    }
+}
+
 pub fn capitalize_first_letter(s: &str) -> String {
     if s == "byte" {
         return "".to_string();
diff --git a/idlc_codegen_rust/src/globals.rs b/idlc_codegen_rust/src/globals.rs
index 65ee441..5496219 100644
--- a/idlc_codegen_rust/src/globals.rs
+++ b/idlc_codegen_rust/src/globals.rs
@@ -55,7 +55,11 @@ pub struct {ident} {{
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_uppercase();
     let ty = change_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let literal = idlc_codegen::literal::Literal::new(r#const);
+    let value = match r#const.r#type {
+        idlc_mir::Primitive::Float32 | idlc_mir::Primitive::Float64 => literal.decimal(),
+        _ => literal.integer(),
+    };
 
     format!("pub const {ident}: {ty} = {value};\n")
 }
-- 
2.43.0


From 17143a179d428018299b3b2d23a5a550d909ac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 16/23] fix: c: object arrays are const inputs without typed
 objects too

With --no-typed-objects the stub and the implementation prototype took
'Object (*x_ptr)[n]' while the skeleton passes a 'const Object' array, so
the generated skeleton did not compile.
---
 idlc_codegen_c/src/interface/functions/signature.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 2f3da46..6f53aca 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -141,10 +141,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(*{}_ptr)[{cnt}]", ident);
         let ty = if self.is_no_typed_objects {
-            "Object".to_string()
+            "Object"
         } else {
-            format!("{CONST} {}", ty.unwrap_or("Object"))
+            ty.unwrap_or("Object")
         };
+        let ty = format!("{CONST} {ty}");
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
-- 
2.43.0


From d9fc68fae3db84a2419f1725d9d99094a39fa20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 17/23] fix: c, cpp: parameter names never collide with
 generated locals

Parameters called i, o, a, r, h, op, k, me, ctx, ... (or one parameter
called like another one with a generated suffix) redeclared or shadowed a
local of the generated stub or skeleton. Generated locals now start with
an underscore, which no IDL identifier does, and every name derived from
a parameter carries its own suffix.
---
 .../src/interface/functions/implementation.rs | 30 ++++++++--------
 .../src/interface/functions/invoke.rs         | 36 +++++++++----------
 .../src/interface/functions/serialization.rs  | 10 +++---
 .../src/interface/functions/signature.rs      | 24 +++++++------
 idlc_codegen_c/src/interface/mod.rs           | 26 +++++++-------
 .../src/interface/variable_names.rs           |  6 ++--
 .../src/interface/functions/implementation.rs | 30 ++++++++--------
 .../src/interface/functions/invoke.rs         | 28 +++++++--------
 .../src/interface/functions/serialization.rs  | 10 +++---
 .../src/interface/functions/signature.rs      | 28 ++++++++-------
 idlc_codegen_cpp/src/interface/mod.rs         |  4 +--
 11 files changed, 118 insertions(+), 114 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 0594d6f..3c289fd 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -119,14 +119,14 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         };
         let _idx = self.idx();
         self.initializations.push(format!(
-            r#"{definition} i;
+            r#"{definition} _i;
 {0}"#,
             packer.bi_assignments(),
         ));
         self.pre_call.push(packer.bi_blank_objects());
         self.args.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{ &_i, {size} }} }},"#
         ));
     }
 
@@ -166,7 +166,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let _idx = self.idx();
         self.args.push(format!(
             r#"
-        {{.o = {ident} }},"#
+        {{.o = {ident}_val }},"#
         ));
     }
 
@@ -222,7 +222,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             );
             self.post_call.push(format!(
                 r#"
-    (*{ident}_ptr)[{i}] = a[{idx}].o;"#,
+    (*{ident}_ptr)[{i}] = {ARGS}[{idx}].o;"#,
             ));
         }
     }
@@ -254,13 +254,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
         self.initializations.push(format!(
             r#"
-    {definition} o = {{{initialization}}};
+    {definition} _o = {{{initialization}}};
 "#
         ));
         self.post_call.push(packer.post_bo_assignments());
         self.args.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{  &o, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{  &_o, {size} }} }},"#
         ));
     }
 
@@ -289,7 +289,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let idx = self.idx();
         self.post_call.push(format!(
             r#"
-    *{ident} = {ARGS}[{idx}].o;"#
+    *{ident}_ptr = {ARGS}[{idx}].o;"#
         ));
         self.args.push(
             r#"
@@ -336,13 +336,13 @@ pub fn emit(
 
     if total > 0 {
         object_args = format!(
-            r#"ObjectArg a[] = {{{args}
+            r#"ObjectArg {ARGS}[] = {{{args}
     }};"#
         );
     }
 
     let returns = if total > 0 {
-        format!("Object_invoke(self, {iface_ident}_{OP}_{ident}, a, ObjectCounts_pack({0}, {1}, {2}, {3}));",
+        format!("Object_invoke(_self, {iface_ident}_{OP}_{ident}, {ARGS}, ObjectCounts_pack({0}, {1}, {2}, {3}));",
         counts.input_buffers,
         counts.output_buffers,
         counts.input_objects,
@@ -351,9 +351,9 @@ pub fn emit(
         return format!(
             r#"
 {documentation}
-static inline int32_t {current_iface_ident}_{ident}(Object self{params})
+static inline int32_t {current_iface_ident}_{ident}(Object _self{params})
 {{
-    return Object_invoke(self, {iface_ident}_{OP}_{ident}, 0, 0);
+    return Object_invoke(_self, {iface_ident}_{OP}_{ident}, 0, 0);
 }}
 "#
         );
@@ -362,12 +362,12 @@ static inline int32_t {current_iface_ident}_{ident}(Object self{params})
     format!(
         r#"
 {documentation}
-static inline int32_t {current_iface_ident}_{ident}(Object self{params})
+static inline int32_t {current_iface_ident}_{ident}(Object _self{params})
 {{
 {0}{1}{2}
-    int32_t result = {returns}
+    int32_t _result = {returns}
 {3}
-    return result;
+    return _result;
 }}
 "#,
         if !initializations.is_empty() {
@@ -386,7 +386,7 @@ static inline int32_t {current_iface_ident}_{ident}(Object self{params})
             "".to_string()
         },
         if !post_call_assignments.is_empty() {
-            format!("    if (Object_OK != result) {{ return result; }}\n{post_call_assignments}")
+            format!("    if (Object_OK != _result) {{ return _result; }}\n{post_call_assignments}")
         } else {
             "".to_string()
         }
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 9918083..78590ab 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -119,11 +119,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut objs = String::new();
         for _ in 0..cnt.into() {
             let idx = self.idx();
-            objs.push_str(&format!(r"a[{idx}].o,"));
+            objs.push_str(&format!(r"{ARGS}[{idx}].o,"));
         }
         self.pre.push(format!(
             r#" \
-                const {ty} {ident}[{cnt}] = {{ {objs} }};"#,
+                const {ty} {ident}_arr[{cnt}] = {{ {objs} }};"#,
         ));
     }
 
@@ -154,7 +154,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
         self.pre.push(format!(
             r#" \
-                {CONST} {definition} *i = (const struct {BI}*){ARGS}[{idx}].b.ptr;"#
+                {CONST} {definition} *_i = (const struct {BI}*){ARGS}[{idx}].b.ptr;"#
         ));
         let is_aligned = packed_primitives.is_input_aligned();
         for (ident, ty) in packed_primitives.inputs_by_idents() {
@@ -162,7 +162,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 if !is_aligned || s.contains_interfaces() {
                     self.pre.push(format!(
                         r#" \
-                {} {ident}_cpy = i->m_{ident};"#,
+                {} {ident}_cpy = _i->m_{ident};"#,
                         s.ident
                     ));
                 }
@@ -267,7 +267,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
-        let name = format!("{}", ident);
+        let name = format!("{}_arr", ident);
         let ty = if self.is_no_typed_objects {
             "Object".to_string()
         } else {
@@ -279,7 +279,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             let idx = self.idx();
             objs.push_str("Object_NULL, ");
             obj_assign.push_str(&format!(
-                r#"a[{idx}].o = {name}[{i}]; \
+                r#"{ARGS}[{idx}].o = {name}[{i}]; \
                 "#
             ))
         }
@@ -337,7 +337,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
         self.pre.push(format!(
             r#" \
-                {definition} *o = (struct {BO}*){ARGS}[{idx}].b.ptr;"#
+                {definition} *_o = (struct {BO}*){ARGS}[{idx}].b.ptr;"#
         ));
         let is_aligned = packed_primitives.is_output_aligned();
         for (ident, ty) in packed_primitives.outputs_by_idents() {
@@ -348,17 +348,17 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             if !is_aligned {
                 self.pre.push(format!(
                     r#" \
-                {ty} {ident}_cpy = o->m_{ident}; \
+                {ty} {ident}_cpy = _o->m_{ident}; \
                 {ty} *{ident}_ptr = &{ident}_cpy;"#
                 ));
                 self.copy_out.push(format!(
                     r#" \
-                o->m_{ident} = {ident}_cpy;"#
+                _o->m_{ident} = {ident}_cpy;"#
                 ));
             } else if contains_interfaces {
                 self.pre.push(format!(
                     r#" \
-                {ty} *{ident}_ptr = &o->m_{ident};"#
+                {ty} *{ident}_ptr = &_o->m_{ident};"#
                 ));
             }
         }
@@ -373,7 +373,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
         self.pre.push(format!(
             r#" \
-                {ty} *{ident} = &{ARGS}[{idx}].o;"#
+                {ty} *{ident}_ptr = &{ARGS}[{idx}].o;"#
         ));
     }
 
@@ -411,19 +411,19 @@ pub fn emit(
     let params = super::signature::iter_to_string(signature.params());
     let call = if function.is_optional() {
         weak_declarations.push_str(&format!(
-            r#"int32_t prefix##{ident}(type ctx{params}) __attribute__((weak)); \
+            r#"int32_t _prefix##{ident}(_type _ctx{params}) __attribute__((weak)); \
         "#
         ));
         format!(
-            r"int32_t r; \
-                if (prefix##{ident} != NULL) {{ \
-                    r = prefix##{ident}(me{return_idents}); \
+            r"int32_t _r; \
+                if (_prefix##{ident} != NULL) {{ \
+                    _r = _prefix##{ident}(_me{return_idents}); \
                 }} else {{ \
                     return Object_ERROR_INVALID; \
                 }} \"
         )
     } else {
-        format!(r"int32_t r = prefix##{ident}(me{return_idents}); \")
+        format!(r"int32_t _r = _prefix##{ident}(_me{return_idents}); \")
     };
 
     let counts = format!(
@@ -434,13 +434,13 @@ pub fn emit(
     format!(
         r#" \
             case {iface_ident}_{OP}_{ident}: {{ \
-                if (k != ObjectCounts_pack{counts}{args}) {{ \
+                if (_k != ObjectCounts_pack{counts}{args}) {{ \
                     break; \
                 }} \
                 {pre} \
                 {call}
                 {post} \
-                return r; \
+                return _r; \
             }} "#
     )
 }
diff --git a/idlc_codegen_c/src/interface/functions/serialization.rs b/idlc_codegen_c/src/interface/functions/serialization.rs
index 7a8c612..be5e263 100644
--- a/idlc_codegen_c/src/interface/functions/serialization.rs
+++ b/idlc_codegen_c/src/interface/functions/serialization.rs
@@ -42,13 +42,13 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = {ident}_val;"#
+    _i.m_{ident} = {ident}_val;"#
                 );
             }
             Type::SmallStruct(_s) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = *{ident}_ptr;"#
+    _i.m_{ident} = *{ident}_ptr;"#
                 );
             }
         });
@@ -64,7 +64,7 @@ impl<'a> PackedPrimitives<'a> {
                 for (path, _) in s.object_paths() {
                     let path = object_path_to_string(&path);
                     blanks += &format!(
-                        r#"i.m_{ident}{path} = Object_NULL;
+                        r#"_i.m_{ident}{path} = Object_NULL;
     "#
                     );
                 }
@@ -89,13 +89,13 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r"
-    *{ident}_ptr = o.m_{ident};"
+    *{ident}_ptr = _o.m_{ident};"
                 );
             }
             Type::SmallStruct(_) => {
                 assignments += &format!(
                     r"
-    *{ident}_ptr = o.m_{ident};"
+    *{ident}_ptr = _o.m_{ident};"
                 );
             }
         });
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 6f53aca..d2e646f 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -149,7 +149,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("&{}", ident), "size_t".to_string()));
+            .push((format!("&{}_arr", ident), "size_t".to_string()));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -157,7 +157,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
         if self.is_bundled_input(ident) {
             self.outputs
-                .push((format!("i->m_{}", ident), change_primitive(ty).to_string()));
+                .push((format!("_i->m_{}", ident), change_primitive(ty).to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
@@ -169,7 +169,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("*{}_ptr", ident), format!("{CONST} {}", ty.ident)));
         if self.is_bundled_input(ident) && self.is_input_aligned && !ty.contains_interfaces() {
             self.outputs
-                .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("&_i->m_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() || self.is_bundled_input(ident) {
             self.outputs
                 .push((format!("&{}_cpy", ident), format!("{CONST} {}", ty.ident)));
@@ -183,7 +183,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("*{}_ptr", ident), format!("{CONST} {}", ty.ident)));
         if self.is_bundled_input(ident) && self.is_input_aligned && !ty.contains_interfaces() {
             self.outputs
-                .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("&_i->m_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() || self.is_bundled_input(ident) {
             self.outputs
                 .push((format!("&{}_cpy", ident), format!("{CONST} {}", ty.ident)));
@@ -199,7 +199,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         } else {
             ty.unwrap_or("Object")
         };
-        self.inputs.push((format!("{ident}"), ty.to_string()));
+        self.inputs.push((format!("{ident}_val"), ty.to_string()));
         self.outputs
             .push((format!("*{}_ptr", ident), ty.to_string()));
     }
@@ -261,7 +261,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         };
         self.inputs.push((name, ty));
         self.outputs
-            .push((format!("&{}", ident), "size_t".to_string()));
+            .push((format!("&{}_arr", ident), "size_t".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -269,7 +269,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
         if self.is_bundled_output(ident) {
             let name = if self.is_output_aligned {
-                format!("&o->m_{}", ident)
+                format!("&_o->m_{}", ident)
             } else {
                 format!("{}_ptr", ident)
             };
@@ -285,7 +285,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("*{}_ptr", ident), ty.ident.to_string()));
         if self.is_bundled_output(ident) {
             let name = if self.is_output_aligned && !ty.contains_interfaces() {
-                format!("&o->m_{}", ident)
+                format!("&_o->m_{}", ident)
             } else {
                 format!("{}_ptr", ident)
             };
@@ -300,7 +300,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("*{}_ptr", ident), ty.ident.to_string()));
         if self.is_bundled_output(ident) {
             let name = if self.is_output_aligned && !ty.contains_interfaces() {
-                format!("&o->m_{}", ident)
+                format!("&_o->m_{}", ident)
             } else {
                 format!("{}_ptr", ident)
             };
@@ -317,7 +317,9 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         } else {
             ty.unwrap_or("Object")
         };
-        self.inputs.push((format!("*{}", ident), ty.to_string()));
-        self.outputs.push((format!("{}", ident), ty.to_string()));
+        self.inputs
+            .push((format!("*{}_ptr", ident), ty.to_string()));
+        self.outputs
+            .push((format!("{}_ptr", ident), ty.to_string()));
     }
 }
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index e985a60..5dab9de 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -97,15 +97,15 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
 {errors}
 {op_codes}
 static inline int32_t
-{ident}_release(Object self)
+{ident}_release(Object _self)
 {{
-    return Object_invoke(self, Object_OP_release, 0, 0);
+    return Object_invoke(_self, Object_OP_release, 0, 0);
 }}
 
 static inline int32_t
-{ident}_retain(Object self)
+{ident}_retain(Object _self)
 {{
-    return Object_invoke(self, Object_OP_retain, 0, 0);
+    return Object_invoke(_self, Object_OP_retain, 0, 0);
 }}
 {implementations}
 "#
@@ -156,7 +156,7 @@ pub fn emit_interface_invoke(interface: &Interface, is_no_typed_objects: bool) -
         .then_some(format!(r#"typedef Object {ident};"#))
         .unwrap_or_default();
 
-    // weak_delcarations goes inside `func` to preserve the expected when the macro is instantiated
+    // weak_delcarations goes inside `_func` to preserve the expected when the macro is instantiated
     // with `static IFoo_DEFINE_INVOKE`. It is OK to declare functions within functions for C.
     format!(
         r#"{typed_objects}
@@ -170,25 +170,25 @@ pub fn emit_interface_invoke(interface: &Interface, is_no_typed_objects: bool) -
 #define __compiler_pragma_post
 #endif
 
-#define {ident}_DEFINE_INVOKE(func, prefix, type) \
-    int32_t func(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) \
+#define {ident}_DEFINE_INVOKE(_func, _prefix, _type) \
+    int32_t _func(ObjectCxt _h, ObjectOp _op, ObjectArg *_a, ObjectCounts _k) \
     {{ \
         __compiler_pragma_pre \
         {weak_declarations} \
         __compiler_pragma_post \
-        type me = (type) h; \
-        switch (ObjectOp_methodID(op)) {{ \
+        _type _me = (_type) _h; \
+        switch (ObjectOp_methodID(_op)) {{ \
             case Object_OP_release: {{ \
-                if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
+                if (_k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return prefix##release(me); \
+                return _prefix##release(_me); \
             }} \
             case Object_OP_retain: {{ \
-                if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
+                if (_k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return prefix##retain(me); \
+                return _prefix##retain(_me); \
             }} \
             {invokes} \
         }} \
diff --git a/idlc_codegen_c/src/interface/variable_names.rs b/idlc_codegen_c/src/interface/variable_names.rs
index 594985e..e7c4417 100644
--- a/idlc_codegen_c/src/interface/variable_names.rs
+++ b/idlc_codegen_c/src/interface/variable_names.rs
@@ -3,10 +3,10 @@
 
 pub mod invoke {
     pub const CONST: &str = "const";
-    pub const ARGS: &str = "a";
+    pub const ARGS: &str = "_a";
     pub const OBJECTBUF: &str = "ObjectBuf";
     pub const OBJECTBUFIN: &str = "ObjectBufIn";
     pub const OP: &str = "OP";
-    pub const BI: &str = "bi";
-    pub const BO: &str = "bo";
+    pub const BI: &str = "_bi";
+    pub const BO: &str = "_bo";
 }
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index 5e241cf..8ef7e59 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -34,7 +34,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             let _idx = self.0.idx();
             self.0.args.push(format!(
                 r#"
-        {{.o = ({ident}_ref)[{i}].get() }},"#
+        {{.o = ({ident}_ref)[{i}].ProxyBase::get() }},"#
             ));
         }
     }
@@ -57,11 +57,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let _idx = self.0.idx();
         self.0
             .initializations
-            .push(format!(r#"{definition} i;{0}"#, packer.bi_assignments(),));
+            .push(format!(r#"{definition} _i;{0}"#, packer.bi_assignments(),));
         self.0.pre_call.push(packer.bi_blank_objects());
         self.0.args.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{ &_i, {size} }} }},"#
         ));
     }
 
@@ -102,7 +102,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let _idx = self.0.idx();
         self.0.args.push(format!(
             r#"
-        {{.o = {ident}.get() }},"#
+        {{.o = {ident}_ref.ProxyBase::get() }},"#
         ));
     }
 
@@ -140,8 +140,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
         self.0.post_call.push(format!(
             r#"
-    for(size_t arg_idx=0;arg_idx<{cnt};arg_idx++)
-        ({ident}_ref)[arg_idx].consume(a[{idx}+arg_idx].o);"#,
+    for(size_t _arg_idx=0;_arg_idx<{cnt};_arg_idx++)
+        ({ident}_ref)[_arg_idx].ProxyBase::consume({ARGS}[{idx}+_arg_idx].o);"#,
         ));
 
         for _ in 1..cnt.into() {
@@ -170,11 +170,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
         self.0.initializations.push(format!(
             r#"
-    {definition} o = {{{initialization}}};"#
+    {definition} _o = {{{initialization}}};"#
         ));
         self.0.args.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{  &o, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{  &_o, {size} }} }},"#
         ));
         self.0.post_call.push(packer.post_bo_assignments());
     }
@@ -210,7 +210,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         );
         self.0.post_call.push(format!(
             r#"
-    {ident}.consume({ARGS}[{idx}].o);"#
+    {ident}_ref.ProxyBase::consume({ARGS}[{idx}].o);"#
         ));
     }
 
@@ -278,31 +278,31 @@ pub fn emit_definition(
     if total > 0 {
         object_args = format!(
             r#"
-        ObjectArg a[] = {{{args}
+        ObjectArg {ARGS}[] = {{{args}
         }};"#
         );
     }
 
     let returns = if total > 0 {
         format!(
-            "invoke({OP}_{ident}, a, ObjectCounts_pack({0}, {1}, {2}, {3}));",
+            "ProxyBase::invoke({OP}_{ident}, {ARGS}, ObjectCounts_pack({0}, {1}, {2}, {3}));",
             counts.input_buffers,
             counts.output_buffers,
             counts.input_objects,
             counts.output_objects
         )
     } else {
-        format!("invoke({OP}_{ident}, 0, 0);")
+        format!("ProxyBase::invoke({OP}_{ident}, 0, 0);")
     };
 
     format!(
         r#"
 inline int32_t {class_ident}::{ident}({params}) {{
 {0}{1}{2}
-        int32_t result = {returns}
-        if (Object_OK != result) {{ return result; }}
+        int32_t _result = {returns}
+        if (Object_OK != _result) {{ return _result; }}
 {post_call_assignments}
-        return result;
+        return _result;
 }}
 "#,
         if !initializations.is_empty() {
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index 336361a..ceb960c 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -41,14 +41,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut obj_args = String::new();
         for _ in 0..cnt.into() {
             let idx = self.0.idx();
-            obj_args.push_str(&format!(r"{ty}(a[{idx}].o),"));
+            obj_args.push_str(&format!(r"{ty}({ARGS}[{idx}].o),"));
         }
         self.0.pre.push(format!(
             r#" \
-                const union {ident} {{
-                    ~{ident}() {{}}
-                    {ty} inner[{cnt}];
-                }} {ident} = {{.inner= {{ {obj_args} }}}};"#,
+                const union {ident}_objs {{
+                    ~{ident}_objs() {{}}
+                    {ty} _inner[{cnt}];
+                }} {ident}_arr = {{._inner= {{ {obj_args} }}}};"#,
         ));
     }
 
@@ -76,11 +76,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = ty.unwrap_or("ProxyBase").to_string();
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}({ARGS}[{idx}].o);"#
+                {ty} {ident}_obj({ARGS}[{idx}].o);"#
         ));
         self.0.post.push(format!(
             r#" \
-                p_{ident}.extract();"#
+                {ident}_obj.ProxyBase::extract();"#
         ));
     }
 
@@ -112,12 +112,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             let idx = self.0.idx();
             obj_assign.push_str(&format!(
                 r#"
-                {ARGS}[{idx}].o=p_{ident}[{i}].extract();"#
+                {ARGS}[{idx}].o={ident}_obj[{i}].ProxyBase::extract();"#
             ));
         }
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}[{cnt}];"#
+                {ty} {ident}_obj[{cnt}];"#
         ));
         self.0.post.push(format!(
             r#" \
@@ -149,11 +149,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = ty.unwrap_or("ProxyBase").to_string();
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident};"#
+                {ty} {ident}_obj;"#
         ));
         self.0.post.push(format!(
             r#" \
-                {ARGS}[{idx}].o = p_{ident}.extract();"#
+                {ARGS}[{idx}].o = {ident}_obj.ProxyBase::extract();"#
         ));
     }
 
@@ -205,13 +205,13 @@ pub fn emit(
     format!(
         r#"
             case {OP}_{ident}: {{
-                if (k != ObjectCounts_pack{counts}{args}) {{
+                if (_k != ObjectCounts_pack{counts}{args}) {{
                     break;
                 }}
 {pre}
-                int32_t r = {ident}({return_idents});
+                int32_t _r = this->{ident}({return_idents});
 {post}
-                return r;
+                return _r;
             }}"#
     )
 }
diff --git a/idlc_codegen_cpp/src/interface/functions/serialization.rs b/idlc_codegen_cpp/src/interface/functions/serialization.rs
index fa3ac1d..3ec5b6c 100644
--- a/idlc_codegen_cpp/src/interface/functions/serialization.rs
+++ b/idlc_codegen_cpp/src/interface/functions/serialization.rs
@@ -42,13 +42,13 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = {ident}_val;"#
+    _i.m_{ident} = {ident}_val;"#
                 );
             }
             Type::SmallStruct(_) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = {ident}_ref;"#
+    _i.m_{ident} = {ident}_ref;"#
                 );
             }
         });
@@ -64,7 +64,7 @@ impl<'a> PackedPrimitives<'a> {
                 for (path, _) in s.object_paths() {
                     let path = object_path_to_string(&path);
                     blanks += &format!(
-                        r#"i.m_{ident}{path} = Object_NULL;
+                        r#"_i.m_{ident}{path} = Object_NULL;
     "#
                     );
                 }
@@ -89,13 +89,13 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r#"
-    *{ident}_ptr = o.m_{ident};"#
+    *{ident}_ptr = _o.m_{ident};"#
                 );
             }
             Type::SmallStruct(_) => {
                 assignments += &format!(
                     r#"
-    {ident}_ref = o.m_{ident};"#
+    {ident}_ref = _o.m_{ident};"#
                 );
             }
         });
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 89eea61..9e380f6 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -111,7 +111,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("{}.inner", ident), "size_t".to_string()));
+            .push((format!("{}_arr._inner", ident), "size_t".to_string()));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -119,7 +119,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
         if self.is_bundled_input(ident) {
             self.outputs
-                .push((format!("i->m_{}", ident), change_primitive(ty).to_string()));
+                .push((format!("_i->m_{}", ident), change_primitive(ty).to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
@@ -131,7 +131,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
         if self.is_bundled_input(ident) && self.is_input_aligned && !ty.contains_interfaces() {
             self.outputs
-                .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("_i->m_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() || self.is_bundled_input(ident) {
             self.outputs
                 .push((format!("{}_cpy", ident), format!("{CONST} {}", ty.ident)));
@@ -145,7 +145,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
         if self.is_bundled_input(ident) && self.is_input_aligned && !ty.contains_interfaces() {
             self.outputs
-                .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("_i->m_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() || self.is_bundled_input(ident) {
             self.outputs
                 .push((format!("{}_cpy", ident), format!("{CONST} {}", ty.ident)));
@@ -157,11 +157,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_input_object(&mut self, ident: &Ident, ty: Option<&str>) {
         self.inputs.push((
-            format!("&{}", ident),
+            format!("&{}_ref", ident),
             format!("{CONST} {}", ty.unwrap_or("ProxyBase")),
         ));
         self.outputs
-            .push((format!("p_{}", ident), ty.unwrap_or("Object").to_string()));
+            .push((format!("{}_obj", ident), ty.unwrap_or("Object").to_string()));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
@@ -218,7 +218,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((name, ty));
         self.output_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("p_{}", ident), "size_t".to_string()));
+            .push((format!("{}_obj", ident), "size_t".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -226,7 +226,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
         if self.is_bundled_output(ident) {
             let name = if self.is_output_aligned {
-                format!("&o->m_{}", ident)
+                format!("&_o->m_{}", ident)
             } else {
                 format!("{}_ptr", ident)
             };
@@ -242,7 +242,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
         if self.is_bundled_output(ident) {
             let name = if self.is_output_aligned && !ty.contains_interfaces() {
-                format!("o->m_{}", ident)
+                format!("_o->m_{}", ident)
             } else {
                 format!("*{}_ptr", ident)
             };
@@ -257,7 +257,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
         if self.is_bundled_output(ident) {
             let name = if self.is_output_aligned && !ty.contains_interfaces() {
-                format!("o->m_{}", ident)
+                format!("_o->m_{}", ident)
             } else {
                 format!("*{}_ptr", ident)
             };
@@ -269,9 +269,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     }
 
     fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {
-        self.inputs
-            .push((format!("&{}", ident), ty.unwrap_or("ProxyBase").to_string()));
+        self.inputs.push((
+            format!("&{}_ref", ident),
+            ty.unwrap_or("ProxyBase").to_string(),
+        ));
         self.outputs
-            .push((format!("p_{}", ident), ty.unwrap_or("Object").to_string()));
+            .push((format!("{}_obj", ident), ty.unwrap_or("Object").to_string()));
     }
 }
diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index c13f4e6..9c95442 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -198,8 +198,8 @@ class {ident}ImplBase : protected ImplBase, public I{ident} {{
     virtual ~{ident}ImplBase() {{}}
 {weak_declarations}
   protected:
-    virtual int32_t invoke(ObjectOp op, ObjectArg* a, ObjectCounts k) {{
-        switch (ObjectOp_methodID(op)) {{
+    virtual int32_t invoke(ObjectOp _op, ObjectArg* _a, ObjectCounts _k) {{
+        switch (ObjectOp_methodID(_op)) {{
 {invokes}
             default: {{ return Object_ERROR_INVALID; }}
         }}
-- 
2.43.0


From 282d893a3dd382f9406ecc88c5c20b7921df0981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 18/23] fix: rust: parameter and method names never collide
 with generated names

Parameters called h, op, args, counts, cx, ... shadowed locals of the
generated stub or skeleton, and methods called like a method of a standard
trait were ambiguous. Generated locals start with two underscores,
parameters with one, and the skeleton calls the interface trait
explicitly.
---
 idlc_codegen_rust/src/ident.rs                | 35 ++++++++++++
 idlc_codegen_rust/src/interface/error.rs      | 18 +++----
 .../src/interface/functions/implementation.rs | 54 ++++++++++---------
 .../src/interface/functions/invoke.rs         | 54 ++++++++++---------
 .../src/interface/functions/serialization.rs  | 12 ++---
 .../src/interface/functions/signature.rs      | 22 ++++----
 idlc_codegen_rust/src/interface/mod.rs        | 29 +++++-----
 .../src/interface/variable_names.rs           | 12 ++---
 8 files changed, 136 insertions(+), 100 deletions(-)

diff --git a/idlc_codegen_rust/src/ident.rs b/idlc_codegen_rust/src/ident.rs
index 8581be9..f5689c4 100644
--- a/idlc_codegen_rust/src/ident.rs
+++ b/idlc_codegen_rust/src/ident.rs
@@ -22,3 +22,38 @@ impl<'a> From<&'a idlc_mir::Ident> for EscapedIdent<'a> {
         Self::new(value)
     }
 }
+
+/// A parameter inside of the generated functions.
+///
+/// An IDL identifier never starts with an underscore. Hence the parameter cannot
+/// coincide with any item of the generated module, nor with the locals starting
+/// with `__` which are derived from other parameters.
+#[derive(Debug, Clone, Copy)]
+pub struct ParamIdent<'a>(&'a idlc_mir::Ident);
+impl<'a> std::fmt::Display for ParamIdent<'a> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        write!(f, "_{}", &self.0)
+    }
+}
+
+impl<'a> ParamIdent<'a> {
+    #[inline]
+    pub const fn new(ident: &'a idlc_mir::Ident) -> Self {
+        ParamIdent(ident)
+    }
+
+    /// Length of an output buffer written by the implementation.
+    pub fn lenout(&self) -> String {
+        format!("__{}_lenout", &self.0)
+    }
+
+    /// Size of an output buffer given by the caller.
+    pub fn orig(&self) -> String {
+        format!("__{}_orig", &self.0)
+    }
+
+    /// Copy of a struct without the objects.
+    pub fn copy(&self) -> String {
+        format!("__{}_copy", &self.0)
+    }
+}
diff --git a/idlc_codegen_rust/src/interface/error.rs b/idlc_codegen_rust/src/interface/error.rs
index 1fc2eb6..700ccbd 100644
--- a/idlc_codegen_rust/src/interface/error.rs
+++ b/idlc_codegen_rust/src/interface/error.rs
@@ -11,21 +11,21 @@ pub struct Error(crate::object::Error);
 
 impl From<Error> for crate::object::Error {
     #[inline(always)]
-    fn from(e: Error) -> Self {
-        e.0
+    fn from(__e: Error) -> Self {
+        __e.0
     }
 }
 impl From<crate::object::Error> for Error {
     #[inline(always)]
-    fn from(e: crate::object::Error) -> Self {
-        Self(e)
+    fn from(__e: crate::object::Error) -> Self {
+        Self(__e)
     }
 }
 
 impl std::fmt::Display for Error {
     #[inline]
-    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        std::fmt::Debug::fmt(&self, f)
+    fn fmt(&self, __f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        std::fmt::Debug::fmt(&self, __f)
     }
 }
 impl std::error::Error for Error {}
@@ -39,17 +39,17 @@ impl std::error::Error for Error {}
         defines += &format!(
             "pub const {ident}: Error = Error(unsafe {{ crate::object::Error::new_unchecked({value}) }});\n"
         );
-        match_arms += &format!("{ident} => write!(f, \"{upper_camel_case_ident}\"),\n",);
+        match_arms += &format!("{ident} => write!(__f, \"{upper_camel_case_ident}\"),\n",);
     }
 
     let debug_impl = format!(
         r#"
     impl std::fmt::Debug for Error {{
         #[inline]
-        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{
+        fn fmt(&self, __f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{
             match *self {{
                 {match_arms}
-                _ => write!(f, "{{}}", self.0)
+                _ => write!(__f, "{{}}", self.0)
             }}
         }}
     }}
diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index b01487c..b5e3e11 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -9,7 +9,7 @@ use crate::types::change_primitive;
 
 use crate::interface::mink_primitives::ARG;
 
-use crate::ident::EscapedIdent;
+use crate::ident::ParamIdent;
 use crate::types::namespaced_struct;
 
 use super::serialization::TransportBuffer;
@@ -58,7 +58,7 @@ impl Implementation {
 
 impl Implementation {
     fn generate_input_buffer(&mut self, ident: &Ident) {
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         self.args.push(format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
@@ -70,9 +70,10 @@ impl Implementation {
     }
 
     fn generate_output_buffer(&mut self, ident: &Ident, ty: &str) {
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         self.post_call.push(format!(
-            "*{ident}_lenout = unsafe {{ {ARGS}[{idx}].b.size }} / std::mem::size_of::<{ty}>();",
+            "*{lenout} = unsafe {{ {ARGS}[{idx}].b.size }} / std::mem::size_of::<{ty}>();",
+            lenout = ident.lenout(),
             idx = self.args.len()
         ));
         self.args.push(format!(
@@ -97,7 +98,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         let ty: &str = change_primitive(ty);
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         self.args.push(format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
@@ -120,13 +121,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.initializations.push(format!(
             r#"
             {definition}
-            let mut bi = {BI_STRUCT}({idents});
+            let mut __bi = {BI_STRUCT}({idents});
             "#
         ));
         self.args.push(format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
-                    ptr: std::ptr::addr_of!(bi).cast(),
+                    ptr: std::ptr::addr_of!(__bi).cast(),
                     size: {size},
                 }}
             }}
@@ -136,33 +137,34 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_input_big_struct(&mut self, ident: &Ident, r#struct: &idlc_mir::StructInner) {
         let ty: &str = &namespaced_struct(r#struct);
-        let escaped_ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
 
         if r#struct.is_primitive_struct() {
             self.args.push(format!(
                 r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
-                    ptr: ({escaped_ident} as *const {ty}).cast(),
+                    ptr: ({ident} as *const {ty}).cast(),
                     size: std::mem::size_of::<{ty}>(),
                 }}
             }}"#
             ));
         } else {
+            let copy = ident.copy();
             self.initializations.push(format!(
                 r#"
-                let mut __{ident} = std::mem::ManuallyDrop::new(unsafe {{ std::ptr::read({escaped_ident}) }});
+                let mut {copy} = std::mem::ManuallyDrop::new(unsafe {{ std::ptr::read({ident}) }});
             "#
             ));
             for (path, _) in r#struct.object_paths() {
                 let path = object_path_to_string(&path);
                 self.initializations.push(format!(
-                    "unsafe {{ std::ptr::write(std::ptr::addr_of_mut!(__{ident}{path}), std::mem::zeroed()); }}\n"
+                    "unsafe {{ std::ptr::write(std::ptr::addr_of_mut!({copy}{path}), std::mem::zeroed()); }}\n"
                 ));
             }
             self.args.push(format!(
                 r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
-                    ptr: std::ptr::addr_of!(*__{ident}).cast(),
+                    ptr: std::ptr::addr_of!(*{copy}).cast(),
                     size: std::mem::size_of::<{ty}>(),
                 }}
             }}"#
@@ -175,16 +177,16 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         self.args.push(format!(
             r#"{ARG} {{
-                o: std::mem::ManuallyDrop::new({ident}.map(|o| unsafe {{ std::mem::transmute_copy(o) }} ))
+                o: std::mem::ManuallyDrop::new({ident}.map(|__o| unsafe {{ std::mem::transmute_copy(__o) }} ))
             }}"#
         ));
     }
 
     fn visit_input_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         let path = object_path_to_string(path);
         self.args.push(format!(
             r#"{ARG} {{
@@ -212,7 +214,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         let ty: &str = change_primitive(ty);
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         self.initializations.push(format!(
             "let mut {ident} = std::mem::MaybeUninit::<{ty}>::uninit();\n"
         ));
@@ -240,11 +242,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.initializations.push(format!(
             r#"
                 {definition}
-                let mut bo = std::mem::MaybeUninit::<{BO_STRUCT}>::uninit();
+                let mut __bo = std::mem::MaybeUninit::<{BO_STRUCT}>::uninit();
                 "#
         ));
         self.post_call.push(format!(
-            "let {BO_STRUCT}({idents}) = unsafe {{ bo.assume_init() }};"
+            "let {BO_STRUCT}({idents}) = unsafe {{ __bo.assume_init() }};"
         ));
         for ident in packer.bo_object_idents() {
             self.post_call.push(format!("let mut {ident} = {ident};\n"));
@@ -252,7 +254,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.args.push(format!(
             r#"{ARG} {{
                 b: {OUTPUT_BUFFER} {{
-                    ptr: std::ptr::addr_of_mut!(bo).cast(),
+                    ptr: std::ptr::addr_of_mut!(__bo).cast(),
                     size: {size},
                 }}
             }}"#
@@ -261,14 +263,14 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_output_big_struct(&mut self, ident: &Ident, r#struct: &idlc_mir::StructInner) {
         let ty: &str = &namespaced_struct(r#struct);
-        let escaped_ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         self.initializations.push(format!(
             "let mut {ident} = std::mem::MaybeUninit::<{ty}>::uninit();\n"
         ));
         self.args.push(format!(
             r#"{ARG} {{
                 b: {OUTPUT_BUFFER} {{
-                    ptr: std::ptr::addr_of_mut!({escaped_ident}).cast(),
+                    ptr: std::ptr::addr_of_mut!({ident}).cast(),
                     size: std::mem::size_of::<{ty}>(),
                 }}
             }}"#
@@ -280,7 +282,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             ""
         };
         self.post_call.push(format!(
-            "let {mutability}{escaped_ident} = unsafe {{ {escaped_ident}.assume_init() }};"
+            "let {mutability}{ident} = unsafe {{ {ident}.assume_init() }};"
         ));
     }
 
@@ -290,7 +292,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
         let idx = self.args.len();
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         self.post_call.push(format!(
             "let {ident} = unsafe {{ std::mem::transmute(std::mem::ManuallyDrop::take(&mut {ARGS}[{idx}].o)) }};"
         ));
@@ -299,7 +301,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_output_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {
         let idx = self.args.len();
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         let path = object_path_to_string(path);
         self.post_call.push(format!(
             r#"unsafe {{ std::ptr::write(
@@ -318,7 +320,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ty = ty.map_or(Cow::Borrowed(OBJECT), |ty| {
             Cow::Owned(format!("{INTERFACES_BASE}::{}::{ty}", ty.to_lowercase()))
         });
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         self.initializations.push(format!(
             "let mut {ident}: [std::mem::MaybeUninit<Option<{ty}>>; {cnt}] = unsafe {{ std::mem::MaybeUninit::uninit().assume_init() }};"
         ));
@@ -375,7 +377,7 @@ pub fn emit(
                     {post_call_assignments}
                     Ok(({return_idents}))
                 }},
-                err => Err(unsafe {{ std::mem::transmute(err) }})
+                __err => Err(unsafe {{ std::mem::transmute(__err) }})
             }}
         }}
     "#
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index 3a14dc1..90a99e7 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -9,7 +9,7 @@ use crate::{
     types::change_primitive,
 };
 
-use crate::{ident::EscapedIdent, types::namespaced_struct};
+use crate::{ident::ParamIdent, types::namespaced_struct};
 
 use super::serialization::TransportBuffer;
 
@@ -53,7 +53,7 @@ impl Invoke {
         idx
     }
 
-    fn generate_for_input_buffer(&mut self, ident: EscapedIdent, ty: &str) {
+    fn generate_for_input_buffer(&mut self, ident: ParamIdent, ty: &str) {
         let idx = self.idx();
         self.pre.push(format!(
         r#"let {ident} = if {ARGS}[{idx}].bi.size == 0 {{
@@ -63,22 +63,23 @@ impl Invoke {
         }};"#));
     }
 
-    fn generate_for_output_buffer(&mut self, ident: EscapedIdent, ty: &str) {
+    fn generate_for_output_buffer(&mut self, ident: ParamIdent, ty: &str) {
+        let (orig, lenout) = (ident.orig(), ident.lenout());
         let idx = self.idx();
         self.pre.push(format!(
-            r#"let {ident}_orig = {ARGS}[{idx}].b.size;
-            let {ident}_lenout = &mut *std::ptr::addr_of_mut!({ARGS}[{idx}].b.size);"#
+            r#"let {orig} = {ARGS}[{idx}].b.size;
+            let {lenout} = &mut *std::ptr::addr_of_mut!({ARGS}[{idx}].b.size);"#
         ));
         self.pre.push(format!(
-        r#"let {ident} = if {ident}_orig == 0 {{
+        r#"let {ident} = if {orig} == 0 {{
             &mut []
         }} else {{
-            std::slice::from_raw_parts_mut({ARGS}[{idx}].b.ptr.cast::<{ty}>(), {ident}_orig / std::mem::size_of::<{ty}>())
+            std::slice::from_raw_parts_mut({ARGS}[{idx}].b.ptr.cast::<{ty}>(), {orig} / std::mem::size_of::<{ty}>())
         }};"#));
         self.post.push(format!(
             r#"
-            *{ident}_lenout = {ident}_lenout.saturating_mul(std::mem::size_of::<{ty}>());
-            assert!(*{ident}_lenout <= {ident}_orig);
+            *{lenout} = {lenout}.saturating_mul(std::mem::size_of::<{ty}>());
+            assert!(*{lenout} <= {orig});
             "#
         ));
     }
@@ -86,16 +87,16 @@ impl Invoke {
 
 impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
-        self.generate_for_input_buffer(EscapedIdent::new(ident), change_primitive(ty));
+        self.generate_for_input_buffer(ParamIdent::new(ident), change_primitive(ty));
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
-        self.generate_for_input_buffer(EscapedIdent::new(ident), &namespaced_struct(ty));
+        self.generate_for_input_buffer(ParamIdent::new(ident), &namespaced_struct(ty));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         let ty: &str = change_primitive(ty);
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         let idx = self.idx();
         self.pre.push(format!(
             r#"if {ARGS}[{idx}].bi.size != std::mem::size_of::<{ty}>() {{
@@ -137,7 +138,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_input_big_struct(&mut self, ident: &Ident, r#struct: &StructInner) {
         let ty: &str = &namespaced_struct(r#struct);
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         let idx = self.idx();
         self.pre.push(format!(
             r#"if {ARGS}[{idx}].bi.size != std::mem::size_of::<{ty}>() {{
@@ -162,7 +163,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
         let idx = self.idx();
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         self.pre.push(format!(
             "let {ident} = std::mem::transmute({ARGS}[{idx}].o.as_ref());"
         ));
@@ -170,7 +171,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_input_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {
         let idx = self.idx();
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         let path = object_path_to_string(path);
         self.pre.push(format!(
             "std::ptr::write(std::ptr::addr_of_mut!({ident}{path}), std::mem::transmute_copy(&{ARGS}[{idx}].o));"
@@ -178,7 +179,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_object_array(&mut self, ident: &Ident, _: Option<&str>, cnt: idlc_mir::Count) {
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         let mut definition = format!("let {ident} = &std::mem::ManuallyDrop::new([");
         for _ in 0..cnt.get() {
             let idx = self.idx();
@@ -189,15 +190,15 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
-        self.generate_for_output_buffer(EscapedIdent::new(ident), change_primitive(ty));
+        self.generate_for_output_buffer(ParamIdent::new(ident), change_primitive(ty));
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
-        self.generate_for_output_buffer(EscapedIdent::new(ident), &namespaced_struct(ty));
+        self.generate_for_output_buffer(ParamIdent::new(ident), &namespaced_struct(ty));
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, r#struct: &StructInner) {
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         let ty = &namespaced_struct(r#struct);
         let idx = self.idx();
         self.pre.push(format!(
@@ -222,7 +223,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         let ty = change_primitive(ty);
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         let idx = self.idx();
         self.pre.push(format!(
             r#"if {ARGS}[{idx}].b.size != std::mem::size_of::<{ty}>() {{
@@ -264,7 +265,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
         let idx = self.idx();
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         self.post.push(format!(
             "{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}));\n"
         ));
@@ -272,7 +273,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_output_struct_object(&mut self, ident: &Ident, path: &ObjectPath) {
         let idx = self.idx();
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         let path = object_path_to_string(path);
         self.post.push(format!("{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}{path}.take()));"));
         self.post.push(format!(
@@ -281,7 +282,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_object_array(&mut self, ident: &Ident, _: Option<&str>, cnt: idlc_mir::Count) {
-        let ident = EscapedIdent::new(ident);
+        let ident = ParamIdent::new(ident);
         self.post.push(format!(
             "let {ident} = std::mem::ManuallyDrop::new({ident});"
         ));
@@ -296,6 +297,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
 pub fn emit(
     function: &idlc_mir::Function,
+    iface_ident: &str,
     signature: &super::signature::Signature,
     counts: idlc_codegen::counts::Counter,
 ) -> String {
@@ -334,13 +336,13 @@ pub fn emit(
 
         {pre}
 
-        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut cx| cx.r#{ident}({params})) {{
+        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut {CONTEXT}| <dyn I{iface_ident}>::r#{ident}(&mut **{CONTEXT}, {params})) {{
             Ok(({returns})) => {{
                 {post}
                 {OK}
             }},
-            Err(e) => {{
-                i32::from({ERROR_STRUCT}::from(e))
+            Err(__e) => {{
+                i32::from({ERROR_STRUCT}::from(__e))
             }}
         }}
 
diff --git a/idlc_codegen_rust/src/interface/functions/serialization.rs b/idlc_codegen_rust/src/interface/functions/serialization.rs
index fe2e646..a4a593f 100644
--- a/idlc_codegen_rust/src/interface/functions/serialization.rs
+++ b/idlc_codegen_rust/src/interface/functions/serialization.rs
@@ -6,7 +6,7 @@ use std::borrow::Cow;
 use idlc_codegen::serialization::Type;
 
 use crate::{
-    ident::EscapedIdent,
+    ident::ParamIdent,
     types::{change_primitive, namespaced_struct},
 };
 
@@ -32,12 +32,12 @@ impl<'a> PackedPrimitives<'a> {
     pub fn bi_definition_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
         self.0
             .inputs_by_idents()
-            .map(|(ident, _)| EscapedIdent::new(ident).to_string())
+            .map(|(ident, _)| ParamIdent::new(ident).to_string())
     }
 
     pub fn bi_assignment_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
         self.0.inputs_by_idents().map(|(ident, ty)| {
-            let ident = EscapedIdent::new(ident);
+            let ident = ParamIdent::new(ident);
             match ty {
                 Type::Primitive(_) => ident.to_string(),
                 // A small struct with an object has nothing but that object
@@ -54,7 +54,7 @@ impl<'a> PackedPrimitives<'a> {
         let mut assignments = String::new();
         self.0.inputs_by_idents().for_each(|(ident, ty)| {
             if let Type::SmallStruct(s) = ty {
-                let ident = EscapedIdent::new(ident);
+                let ident = ParamIdent::new(ident);
                 assignments += &if s.contains_interfaces() {
                     format!(r"let mut {ident} = std::mem::ManuallyDrop::new({ident});")
                 } else {
@@ -86,14 +86,14 @@ impl<'a> PackedPrimitives<'a> {
     ) -> impl Iterator<Item = String> + 'b {
         pairs.filter_map(|(ident, ty)| {
             matches!(ty, Type::SmallStruct(s) if s.contains_interfaces())
-                .then(|| EscapedIdent::new(ident).to_string())
+                .then(|| ParamIdent::new(ident).to_string())
         })
     }
 
     pub fn bo_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
         self.0
             .outputs_by_idents()
-            .map(|(ident, _)| EscapedIdent::new(ident).to_string())
+            .map(|(ident, _)| ParamIdent::new(ident).to_string())
     }
 
     #[inline]
diff --git a/idlc_codegen_rust/src/interface/functions/signature.rs b/idlc_codegen_rust/src/interface/functions/signature.rs
index 4499ec4..757f5f5 100644
--- a/idlc_codegen_rust/src/interface/functions/signature.rs
+++ b/idlc_codegen_rust/src/interface/functions/signature.rs
@@ -4,7 +4,7 @@
 use idlc_mir::{Ident, Primitive, StructInner};
 
 use crate::{
-    ident::EscapedIdent,
+    ident::ParamIdent,
     types::{change_primitive, namespaced_struct},
 };
 
@@ -60,14 +60,14 @@ impl Signature {
 
     #[inline]
     fn push_inputs(&mut self, ident: &Ident, ty: impl Into<String>) {
-        let ident = EscapedIdent::new(ident);
-        self.inputs.push((ident.to_string(), ty.into()));
+        self.inputs
+            .push((ParamIdent::new(ident).to_string(), ty.into()));
     }
 
     #[inline]
     fn push_outputs(&mut self, ident: &Ident, ty: impl Into<String>) {
-        let ident = EscapedIdent::new(ident);
-        self.outputs.push((ident.to_string(), ty.into()));
+        self.outputs
+            .push((ParamIdent::new(ident).to_string(), ty.into()));
     }
 }
 
@@ -115,18 +115,14 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
         self.push_inputs(ident, format!("&mut [{}]", change_primitive(ty)));
-        self.push_inputs(
-            &idlc_mir::Ident::new_without_span(format!("{ident}_lenout")),
-            "&mut usize",
-        );
+        self.inputs
+            .push((ParamIdent::new(ident).lenout(), "&mut usize".to_string()));
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
         self.push_inputs(ident, format!("&mut [{}]", namespaced_struct(ty)));
-        self.push_inputs(
-            &idlc_mir::Ident::new_without_span(format!("{ident}_lenout")),
-            "&mut usize",
-        );
+        self.inputs
+            .push((ParamIdent::new(ident).lenout(), "&mut usize".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
diff --git a/idlc_codegen_rust/src/interface/mod.rs b/idlc_codegen_rust/src/interface/mod.rs
index ddfcd43..e0eabbf 100644
--- a/idlc_codegen_rust/src/interface/mod.rs
+++ b/idlc_codegen_rust/src/interface/mod.rs
@@ -41,7 +41,7 @@ pub fn emit(interface: &Interface) -> String {
                     counts,
                     &signature,
                 ));
-                invoke_arms.push(functions::invoke::emit(f, &signature, counts));
+                invoke_arms.push(functions::invoke::emit(f, ident, &signature, counts));
                 trait_functions.push(functions::traits::emit(f, &documentation, &signature));
             }
         }
@@ -63,6 +63,7 @@ pub fn emit(interface: &Interface) -> String {
                 let signature = functions::signature::Signature::new(f);
                 invoke_arms.push(functions::invoke::emit(
                     f,
+                    ident,
                     &signature,
                     idlc_codegen::counts::Counter::new(f),
                 ));
@@ -115,34 +116,34 @@ pub fn emit(interface: &Interface) -> String {
 
         #[inline]
         fn deref(&self) -> &Self::Target {{
-            self.as_ref()
+            AsRef::as_ref(self)
         }}
     }}
 
     impl From<{ident}> for {upcast_target} {{
-        fn from(value: {ident}) -> {upcast_target} {{
-            unsafe {{ std::mem::transmute(value) }}
+        fn from(__value: {ident}) -> {upcast_target} {{
+            unsafe {{ std::mem::transmute(__value) }}
         }}
     }}
 
     impl<T: I{ident} + 'static> From<T> for {ident} {{
-        fn from(concrete: T) -> Self {{
-            let cx = Box::new(unsafe {{ {wrapper}::new::<T>(Box::new(concrete)) }});
-            unsafe {{ Self({OBJECT}::create(MARKER, Box::into_raw(cx).cast())) }}
+        fn from(__concrete: T) -> Self {{
+            let {cx} = Box::new(unsafe {{ {wrapper}::new::<T>(Box::new(__concrete)) }});
+            unsafe {{ Self({OBJECT}::create({MARKER}, Box::into_raw({cx}).cast())) }}
         }}
     }}
 
-    static {MARKER}: {INVOKE_FN} = invoke;
-    unsafe extern "C" fn invoke({h}: {CONTEXT}, {op}: {OP_ID}, {args}: *mut {ARG}, {counts}: {COUNTS}) -> i32 {{
+    static {MARKER}: {INVOKE_FN} = __invoke;
+    unsafe extern "C" fn __invoke({h}: {CONTEXT}, {op}: {OP_ID}, {args}: *mut {ARG}, {counts}: {COUNTS}) -> i32 {{
         debug_assert_eq!({h}.align_offset(std::mem::align_of::<{wrapper}>()), 0);
         let {cx} = {h}.cast::<{wrapper}>();
-        match op {{
+        match {op} {{
             {invoke_arms}
             {OP_RELEASE} => {{
-                {WRAPPER}::release(cx)
+                {WRAPPER}::release({cx})
             }},
             {OP_RETAIN} => {{
-                {WRAPPER}::retain(cx)
+                {WRAPPER}::retain({cx})
             }},
             _ => {GENERIC_ERROR}::INVALID.into(),
         }}
@@ -160,8 +161,8 @@ pub fn emit(interface: &Interface) -> String {
     /// This function is useful when an implementation gives out an _opaque_ [`{OBJECT}`]
     /// which it recieves later but needs to get the concrete struct behind the object.
     #[inline]
-    pub fn downcast_concrete<R, T: I{ident} + 'static>(obj: &{OBJECT}, f: impl FnMut(&T) -> R) -> Option<R> {{
-        {WRAPPER}::downcast_concrete::<R, T, dyn I{ident}>(obj, {MARKER}, f)
+    pub fn downcast_concrete<R, T: I{ident} + 'static>(__obj: &{OBJECT}, __f: impl FnMut(&T) -> R) -> Option<R> {{
+        {WRAPPER}::downcast_concrete::<R, T, dyn I{ident}>(__obj, {MARKER}, __f)
     }}
     "#,
         h = variable_names::invoke::HANDLE,
diff --git a/idlc_codegen_rust/src/interface/variable_names.rs b/idlc_codegen_rust/src/interface/variable_names.rs
index 0994bb3..49ab3a2 100644
--- a/idlc_codegen_rust/src/interface/variable_names.rs
+++ b/idlc_codegen_rust/src/interface/variable_names.rs
@@ -2,12 +2,12 @@
 // SPDX-License-Identifier: BSD-3-Clause
 
 pub(super) mod invoke {
-    pub const HANDLE: &str = "h";
-    pub const OP_ID: &str = "op";
-    pub const ARGS: &str = "args";
-    pub const COUNTS: &str = "counts";
-    pub const MARKER: &str = "MARKER";
-    pub const CONTEXT: &str = "cx";
+    pub const HANDLE: &str = "__h";
+    pub const OP_ID: &str = "__op";
+    pub const ARGS: &str = "__args";
+    pub const COUNTS: &str = "__counts";
+    pub const MARKER: &str = "__MARKER";
+    pub const CONTEXT: &str = "__cx";
 
     pub const BI_STRUCT: &str = "BI";
     pub const BO_STRUCT: &str = "BO";
-- 
2.43.0


From 95436a32070a36428bf2a68d3187c367d6429208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 19/23] fix: java: an included file is extended once and by its
 name

'include "sub/base.idl"' gave 'extends sub/base', and a file included
twice gave 'extends base,base'.
---
 idlc_codegen_java/src/generator.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/idlc_codegen_java/src/generator.rs b/idlc_codegen_java/src/generator.rs
index 15d188a..74d94ad 100644
--- a/idlc_codegen_java/src/generator.rs
+++ b/idlc_codegen_java/src/generator.rs
@@ -28,17 +28,20 @@ package com.qualcomm.qti.mink;
         interfaces.insert(base.clone(), prologue.to_owned());
 
         let input_name = &mir.tag.file_stem().unwrap().to_str().unwrap();
-        let mut includes = String::new();
+        let mut includes: Vec<&str> = vec![];
         for node in &mir.nodes {
             if let Node::Include(i) = node.as_ref() {
-                let inc_name = i.display().to_string().replace(".idl", "");
-                includes.push_str(&format!("{inc_name},"));
+                let inc_name = i.file_stem().unwrap().to_str().unwrap();
+                if !includes.contains(&inc_name) {
+                    includes.push(inc_name);
+                }
             }
         }
-        if !includes.is_empty() {
-            includes.pop();
-            includes = format!("extends {includes}");
-        }
+        let includes = if includes.is_empty() {
+            String::new()
+        } else {
+            format!("extends {}", includes.join(","))
+        };
         interfaces.get_mut(&base).unwrap().push_str(&format!(
             r#"public interface {input_name} {includes} {{
     "#
-- 
2.43.0


From a002bf2eda9a45f95ac6a36dc2f728988aac484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 20/23] fix: documentation stays inside the comment of every
 language

A bare CR was refused by the Rust parser, '/*' draws -Wcomment in C and
'\u' begins an unicode escape in Java, even inside comments.
---
 idlc_codegen/src/documentation.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/idlc_codegen/src/documentation.rs b/idlc_codegen/src/documentation.rs
index f0c6349..2719b11 100644
--- a/idlc_codegen/src/documentation.rs
+++ b/idlc_codegen/src/documentation.rs
@@ -30,6 +30,19 @@ impl DocumentationStyle {
             Self::C | Self::Java => "*",
         }
     }
+
+    /// Documentation text that means the same inside this style of comment.
+    fn escape(self, doc: &str) -> String {
+        // A bare CR is a line break too, both for IDL and for the compilers.
+        let doc = doc.replace("\r\n", "\n").replace('\r', "\n");
+        match self {
+            Self::Rust => doc,
+            // Comments don't nest, and trigraphs may continue lines.
+            Self::C => doc.replace("/*", "/ *").replace("??/", "? ?/"),
+            // `\u` begins an unicode escape even inside comments.
+            Self::Java => doc.replace("\\u", "&#92;u"),
+        }
+    }
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -65,6 +78,7 @@ impl Documentation {
     fn new_with_idlc_doc(doc: &str, style: DocumentationStyle) -> Self {
         let mut documentation = style.start().to_string();
         documentation.push('\n');
+        let doc = style.escape(doc);
         let last_line = doc.lines().last().unwrap();
         let indent = last_line.find('*').unwrap();
 
-- 
2.43.0


From cef7ba35e6de9ed8bf93a73e8ab5eccc6dc31c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 21/23] fix: markings stay inside the comment of every language

'*/' and '\u' left the Java comment, a bare CR ended C comments for some
compilers and a trailing backslash drew -Wcomment.
---
 idlc_codegen/src/marking.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/idlc_codegen/src/marking.rs b/idlc_codegen/src/marking.rs
index 5a0a5ee..0e8746b 100644
--- a/idlc_codegen/src/marking.rs
+++ b/idlc_codegen/src/marking.rs
@@ -29,6 +29,23 @@ impl MarkingStyle {
             Self::Java => "*",
         }
     }
+
+    /// Marking line that can't leave this style of comment.
+    fn escape(self, line: &str) -> String {
+        match self {
+            // A backslash at the end of a line continues the comment.
+            Self::Rust | Self::C => {
+                let line = line.replace("??/", "? ?/");
+                if line.trim_end().ends_with('\\') {
+                    line + "."
+                } else {
+                    line
+                }
+            }
+            // `\u` begins an unicode escape even inside comments.
+            Self::Java => line.replace("*/", "* /").replace("\\u", "&#92;u"),
+        }
+    }
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -58,10 +75,12 @@ impl Marking {
             return Self(String::new());
         }
         let mut documentation = style.start().to_string();
+        // A bare CR is a line break for some compilers.
+        let marking = marking.replace("\r\n", "\n").replace('\r', "\n");
         for line in marking.lines() {
             documentation += style.prefix();
             documentation.push(' ');
-            documentation.push_str(line);
+            documentation.push_str(&style.escape(line));
             documentation.push('\n');
         }
         documentation.push_str(style.end());
-- 
2.43.0


From d228cc5ff83648ea7638bbcf8bb8d13af74384bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:08 +0000
Subject: [PATCH 22/23] fix: c, cpp: a variable passed as input and output
 keeps its input object

---
 idlc_codegen_c/src/interface/functions/implementation.rs   | 2 +-
 idlc_codegen_cpp/src/interface/functions/implementation.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 3c289fd..80767cd 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -274,7 +274,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         ));
         for (path, _) in ty.object_paths() {
             let path = object_path_to_string(&path);
-            self.initializations.push(format!(
+            self.pre_call.push(format!(
                 r#"(*{name}){path} = Object_NULL;
     "#
             ));
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index 8ef7e59..1f565f3 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -190,9 +190,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
         for (path, _) in ty.object_paths() {
             let path = object_path_to_string(&path);
-            self.0.initializations.push(format!(
-                r#"
-    {name}{path} = Object_NULL;"#
+            self.0.pre_call.push(format!(
+                r#"{name}{path} = Object_NULL;
+    "#
             ));
         }
     }
-- 
2.43.0


From 4240dc38839fce0dc29e2e4dbedc0ae0aeb890b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:43 +0000
Subject: [PATCH 23/23] fix: cpp: objects of a failed implementation are
 released, not handed out

---
 idlc_codegen_cpp/src/interface/functions/invoke.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index ceb960c..5156b19 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -112,7 +112,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             let idx = self.0.idx();
             obj_assign.push_str(&format!(
                 r#"
-                {ARGS}[{idx}].o={ident}_obj[{i}].ProxyBase::extract();"#
+                if (Object_OK == _r) {{ {ARGS}[{idx}].o={ident}_obj[{i}].ProxyBase::extract(); }}"#
             ));
         }
         self.0.pre.push(format!(
@@ -153,7 +153,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
         self.0.post.push(format!(
             r#" \
-                {ARGS}[{idx}].o = {ident}_obj.ProxyBase::extract();"#
+                if (Object_OK == _r) {{ {ARGS}[{idx}].o = {ident}_obj.ProxyBase::extract(); }}"#
         ));
     }
 
-- 
2.43.0

