From 8e9e3fc1ab672cb194c992f89bf903867fc12061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 01/36] fix: use inferred types of unannotated top level values

The type inferred for an unannotated top level let was dropped: later items
saw a fresh variable on every use, so 'let x = 1; export let y : bool = x;'
was accepted and then failed IR verification, and the outcome depended on
whether an editor query had stopped compilation in between.
---
 ticc/src/compiler/typeck.rs | 32 ++++++++++++++++++++++++++------
 ticc/src/lib.rs             |  2 ++
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/ticc/src/compiler/typeck.rs b/ticc/src/compiler/typeck.rs
index d205950..fdd8ef3 100644
--- a/ticc/src/compiler/typeck.rs
+++ b/ticc/src/compiler/typeck.rs
@@ -47,18 +47,21 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
             let expected_ty = if let Some(name) = i.name() {
                 let span = name.token().span();
                 let def = item.defs.iter().find(|d| d.span == span).unwrap();
-                match &def.kind {
-                    ir::DefKind::Value { type_vars: _, ty } => {
-                        checker.unifier.instantiate(ty, &[])
-                    }
-                    _ => unreachable!(),
-                }
+                checker.lookup_name_opaque(def.symbol)
             } else {
                 checker.allocate(Ty::Error)
             };
             if let Some(e) = i.expr() {
                 checker.check_expr(e, expected_ty);
             }
+            // other items only see the final type, so it
+            // cannot be left for them to infer
+            let default = if checker.diagnostics.iter().any(|d| d.severity == Severity::Error) {
+                Ty::Error
+            } else {
+                Ty::Int
+            };
+            checker.unifier.default_vars(expected_ty, default);
         }
         None => {}
     }
@@ -231,6 +234,23 @@ impl Unifier {
         }
     }
 
+    fn default_vars(&mut self, ty: TyIdx, default: Ty) {
+        debug_assert!(self.pending.is_empty(), "cannot default during unification");
+        match self.normalize(ty) {
+            Some(Ty::Apply(a, b)) |
+            Some(Ty::Fn(a, b)) |
+            Some(Ty::Folded(a, b)) => {
+                self.default_vars(a, default);
+                self.default_vars(b, default);
+            }
+            Some(_) => {}
+            None => {
+                let idx = self.final_idx(ty);
+                self.slots[idx.0 as usize] = TySlot::Ty(default);
+            }
+        }
+    }
+
     fn instantiate(&mut self, ty: &ir::Type, vars: &[(ir::Symbol, TyIdx)]) -> TyIdx {
         match ty {
             ir::Type::Int => self.allocate(Ty::Int),
diff --git a/ticc/src/lib.rs b/ticc/src/lib.rs
index 2610018..7fa0051 100644
--- a/ticc/src/lib.rs
+++ b/ticc/src/lib.rs
@@ -126,6 +126,8 @@ impl CompilationUnit {
             compiler::numck::check_numbers(&mut item);
             compiler::kindck::kind_check(&mut item, &defs);
             compiler::typeck::type_check(&mut item, &defs);
+            // type checking fills in the inferred types
+            defs.add_item(&item);
             compiler::matchck::check_matches(&mut item, &defs);
             self.items.push(item);
             scope.add_item(&self.src, self.items.last().unwrap(), false);
-- 
2.43.0


From 3309e4088ddc611bd7944822e8ad34365c127089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 02/36] fix: do not crash on type arguments given to a type
 parameter

Kind checking replaces ill-kinded types, but type checking still saw the
unclean copies through the definition set and the constructor types, and
panicked with 'can only apply to named types'.
---
 ticc/src/compiler/kindck.rs | 3 ++-
 ticc/src/lib.rs             | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ticc/src/compiler/kindck.rs b/ticc/src/compiler/kindck.rs
index 01710f8..ae621c8 100644
--- a/ticc/src/compiler/kindck.rs
+++ b/ticc/src/compiler/kindck.rs
@@ -9,7 +9,8 @@ pub(crate) fn kind_check(item: &mut ir::Item, defs: &DefSet) {
             ir::DefKind::Value { ty, .. } => {
                 check_ty(defs, ty)
             }
-            ir::DefKind::Ctor { fields, .. } => {
+            ir::DefKind::Ctor { fields, fn_ty, .. } => {
+                check_ty(defs, fn_ty);
                 for field in fields {
                     if let ir::Field::Type(ty) = field {
                         check_ty(defs, ty);
diff --git a/ticc/src/lib.rs b/ticc/src/lib.rs
index 7fa0051..19745e6 100644
--- a/ticc/src/lib.rs
+++ b/ticc/src/lib.rs
@@ -125,6 +125,8 @@ impl CompilationUnit {
             defs.add_item(&item);
             compiler::numck::check_numbers(&mut item);
             compiler::kindck::kind_check(&mut item, &defs);
+            // kind checking cleans up ill-kinded types
+            defs.add_item(&item);
             compiler::typeck::type_check(&mut item, &defs);
             // type checking fills in the inferred types
             defs.add_item(&item);
-- 
2.43.0


From 665efc837654d13200fb92ef60a93e5d47cb970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 03/36] fix: accept a fold whose parameter is an already folded
 value

The generated match scrutinised the folded representation with patterns of
the plain one, so verification failed on an accepted program.
---
 ticc/src/codegen/gen_core.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ticc/src/codegen/gen_core.rs b/ticc/src/codegen/gen_core.rs
index 54f1308..60b11fb 100644
--- a/ticc/src/codegen/gen_core.rs
+++ b/ticc/src/codegen/gen_core.rs
@@ -469,7 +469,10 @@ impl<'a, 'b> Generator<'a, 'b> {
                 //     end;
                 //     expr
                 // fold
-                let fold_ty = self.gen_ty(self.types[&l.syntax().id()]);
+                let lambda_ty = self.types[&l.syntax().id()];
+                // an already folded value has nothing left to fold over
+                let is_folded = matches!(lambda_ty, ir::Type::Fn(a, _) if matches!(**a, ir::Type::Folded(_, _)));
+                let fold_ty = self.gen_ty(lambda_ty);
                 let (mut param_ty, folded) = match &fold_ty {
                     cir::Ty::Fn(x, y) => (x.clone(), y.clone()),
                     _ => panic!("invalid fold lambda type"),
@@ -481,7 +484,7 @@ impl<'a, 'b> Generator<'a, 'b> {
                 let fold_name = self.program.names.new_fresh("fold");
                 let body = self.gen_expr(l.body().unwrap());
                 let rec_fold = match &param_ty {
-                    cir::Ty::Named(n, args) => {
+                    cir::Ty::Named(n, args) if !is_folded => {
                         let mut cases = Vec::new();
                         let ctors = &self.type_ctors[n];
                         for ctor in ctors {
-- 
2.43.0


From f2bd445b2a2cfabcba1f14c073074ee658fce718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 04/36] fix: print the modulo operator as % in emitted IR

---
 ticc-core/src/pretty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc-core/src/pretty.rs b/ticc-core/src/pretty.rs
index 217f59f..b57b6ca 100644
--- a/ticc-core/src/pretty.rs
+++ b/ticc-core/src/pretty.rs
@@ -161,7 +161,7 @@ impl Format<'_> {
                     ir::Op::Subtract => "-",
                     ir::Op::Multiply => "*",
                     ir::Op::Divide => "/",
-                    ir::Op::Modulo => "*",
+                    ir::Op::Modulo => "%",
                     ir::Op::Less => "<",
                     ir::Op::LessEq => "<=",
                     ir::Op::Greater => ">",
-- 
2.43.0


From be5aac942e148df260534d883765c4544b6f3a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 05/36] fix: run enough Euclid steps in gcd for all 64 bit
 operands

Consecutive Fibonacci numbers below 2^64 need up to 92 steps, 65 left gcd and
lcm of such operands wrong.
---
 ticc/src/std/int.tic | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/std/int.tic b/ticc/src/std/int.tic
index c025fc3..d161eb3 100644
--- a/ticc/src/std/int.tic
+++ b/ticc/src/std/int.tic
@@ -60,7 +60,7 @@ export let gcd : int -> int -> int =
                 GcdState b (a % b)
         end;
     \a -> \b ->
-        match i.iterate 65 stepState (GcdState a b) with
+        match i.iterate 93 stepState (GcdState a b) with
         | GcdState x _ -> x
         end;
 
-- 
2.43.0


From a7a4c2763bf77855f6ded7c58bd6ab070218558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 06/36] fix: only count a constructor as a use of its own type

For an import exposing several types, a used constructor marked the first
exposed type as used instead of the one it belongs to.
---
 ticc/src/lint/unused.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ticc/src/lint/unused.rs b/ticc/src/lint/unused.rs
index 3a50eac..fc1d193 100644
--- a/ticc/src/lint/unused.rs
+++ b/ticc/src/lint/unused.rs
@@ -10,10 +10,6 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
         for r in &item.refs {
             used.insert(r.symbol);
         }
-        let type_def = item.defs
-            .iter()
-            .find(|d| matches!(d.kind, DefKind::Type { is_var: false, ..}))
-            .map(|d| d.symbol);
         for d in &item.defs {
             if let DefKind::Type { is_var: true, .. } = d.kind {
                 used.insert(d.symbol);
@@ -21,10 +17,8 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
             if d.vis == Visibility::Export {
                 used.insert(d.symbol);
             }
-            if let DefKind::Ctor { .. } = d.kind {
-                if let Some(type_sym) = type_def {
-                    deps.insert(d.symbol, type_sym);
-                }
+            if let DefKind::Ctor { type_symbol, .. } = d.kind {
+                deps.insert(d.symbol, type_symbol);
             }
         }
     }
-- 
2.43.0


From 2955000aed5cd20fb2a960e3970d77408b2d017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 07/36] fix: support constructors with more than nine fields

All runners panicked with 'unsupported tagged value size' when one was built
or decoded.
---
 ticc-eval/src/tagged.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ticc-eval/src/tagged.rs b/ticc-eval/src/tagged.rs
index aea4cc3..9ff2795 100644
--- a/ticc-eval/src/tagged.rs
+++ b/ticc-eval/src/tagged.rs
@@ -4,11 +4,13 @@ use crate::Value;
 
 #[derive(Clone)]
 pub struct Tagged<F> {
-    alloc: Rc<TaggedAlloc<[Value<F>]>>,
+    alloc: Rc<TaggedAlloc<F, [Value<F>]>>,
 }
 
-struct TaggedAlloc<T: ?Sized> {
+struct TaggedAlloc<F, T: ?Sized> {
     tag: ir::Name,
+    // values that do not fit in the inline part
+    large: Option<Box<[Value<F>]>>,
     values: T,
 }
 
@@ -16,6 +18,7 @@ impl<F> Tagged<F> {
     pub(crate) fn from_array<const N: usize>(tag: ir::Name, arr: [Value<F>; N]) -> Tagged<F> {
         let alloc = Rc::new(TaggedAlloc {
             tag,
+            large: None,
             values: arr,
         });
         Tagged { alloc }
@@ -33,7 +36,13 @@ impl<F> Tagged<F> {
             7 => Tagged::from_array::<7>(tag, values.try_into().unwrap()),
             8 => Tagged::from_array::<8>(tag, values.try_into().unwrap()),
             9 => Tagged::from_array::<9>(tag, values.try_into().unwrap()),
-            other => panic!("unsupported tagged value size: {}", other),
+            _ => Tagged {
+                alloc: Rc::new(TaggedAlloc {
+                    tag,
+                    large: Some(values.into()),
+                    values: [],
+                }),
+            },
         }
     }
 
@@ -42,6 +51,9 @@ impl<F> Tagged<F> {
     }
 
     pub fn fields(&self) -> &[Value<F>] {
-        &self.alloc.values
+        match &self.alloc.large {
+            Some(values) => values,
+            None => &self.alloc.values,
+        }
     }
 }
-- 
2.43.0


From 87ec693f8330fda8bf554ac684811ceb86a00d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 08/36] fix: make room before allocating in the bytecode runner

Garbage was only collected after an allocation, which leaves half of the heap
free at worst. Allocating more than that at once, for example concatenating a
long string with itself, panicked with 'not enough space left to allocate'.
---
 ticc-eval/src/bytecode.rs | 16 ++++++++++++++++
 ticc-eval/src/heap.rs     |  8 ++++++++
 2 files changed, 24 insertions(+)

diff --git a/ticc-eval/src/bytecode.rs b/ticc-eval/src/bytecode.rs
index 00b61e1..2b57a68 100644
--- a/ticc-eval/src/bytecode.rs
+++ b/ticc-eval/src/bytecode.rs
@@ -260,6 +260,7 @@ impl Runtime {
                     }
                 }
                 Op::Construct { tag, fields } => {
+                    self.reserve(Heap::object_size(fields));
                     let mut obj = self.heap.alloc_object(tag, fields);
                     for i in (0..fields).rev() {
                         let value = self.stack.pop();
@@ -327,6 +328,7 @@ impl Runtime {
                     let mut concat = Vec::with_capacity(bytes1.len() + bytes2.len());
                     concat.extend(bytes1);
                     concat.extend(bytes2);
+                    self.reserve(Heap::bytes_size(concat.len() as u32));
                     let obj = self.heap.alloc_bytes(concat.len() as u64 | STRING_TAG, concat.len() as u32);
                     obj.bytes[..concat.len()].copy_from_slice(&concat);
                     self.stack.push(Value::Ptr(obj.addr));
@@ -335,6 +337,7 @@ impl Runtime {
                 }
                 Op::StringFromChar => {
                     let x = self.stack.pop_int();
+                    self.reserve(Heap::bytes_size(1));
                     let obj = self.heap.alloc_bytes(1 | STRING_TAG, 1);
                     obj.bytes[0] = x as u8;
                     self.stack.push(Value::Ptr(obj.addr));
@@ -344,6 +347,7 @@ impl Runtime {
                 Op::IntToString => {
                     let x = self.stack.pop_int();
                     let s = x.to_string();
+                    self.reserve(Heap::bytes_size(s.len() as u32));
                     let obj = self.heap.alloc_bytes(s.len() as u64 | STRING_TAG, s.len() as u32);
                     obj.bytes[..s.len()].copy_from_slice(s.as_bytes());
                     self.stack.push(Value::Ptr(obj.addr));
@@ -360,6 +364,7 @@ impl Runtime {
                     let bytes = bytes.get(start..).unwrap_or(&[]);
                     let bytes = bytes.get(..take_len).unwrap_or(bytes);
                     let bytes = bytes.to_vec();
+                    self.reserve(Heap::bytes_size(bytes.len() as u32));
                     let obj = self.heap.alloc_bytes(bytes.len() as u64 | STRING_TAG, bytes.len() as u32);
                     obj.bytes[..bytes.len()].copy_from_slice(&bytes);
                     self.stack.push(Value::Ptr(obj.addr));
@@ -380,6 +385,17 @@ impl Runtime {
         }
     }
 
+    /// Makes sure that the next allocation of given size succeeds.
+    fn reserve(&mut self, size: u32) {
+        if self.heap.free_space() < size as usize {
+            let roots = self.stack.ptrs()
+                .chain(self.consts.iter_mut())
+                .chain(std::iter::once(&mut self.bools.t))
+                .chain(std::iter::once(&mut self.bools.f));
+            self.heap.collect_and_grow(roots, size);
+        }
+    }
+
     fn gc(&mut self) {
         self.heap.collect(self.stack.ptrs()
             .chain(self.consts.iter_mut())
diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index 49424e1..0716c7d 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -25,6 +25,14 @@ impl Heap {
         }
     }
 
+    pub(crate) fn object_size(fields: u32) -> u32 {
+        Header::SIZE + fields * 8
+    }
+
+    pub(crate) fn bytes_size(bytes: u32) -> u32 {
+        Header::SIZE + round_up(bytes)
+    }
+
     pub(crate) fn alloc_bytes(&mut self, tag: u64, bytes: u32) -> BytesAlloc<'_> {
         let (addr, _, bytes) = self.raw_alloc(tag, bytes);
         BytesAlloc {
-- 
2.43.0


From 509d1f6d70fb6fb91ed702c3ef272d4c05a0d73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 09/36] fix: track pointers of heap objects with more than 64
 fields

The pointer bitmap of an object has 64 bits, so a closure capturing more
variables than that (any function using over 64 top level names when not
optimized) crashed the bytecode runner with a shift overflow, or left the
collector with a corrupted heap when overflow checks are off.
---
 ticc-eval/src/heap.rs | 78 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 62 insertions(+), 16 deletions(-)

diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index 0716c7d..f21bd89 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -26,7 +26,7 @@ impl Heap {
     }
 
     pub(crate) fn object_size(fields: u32) -> u32 {
-        Header::SIZE + fields * 8
+        Header::SIZE + (fields + ptr_words(fields as usize) as u32) * 8
     }
 
     pub(crate) fn bytes_size(bytes: u32) -> u32 {
@@ -42,11 +42,16 @@ impl Heap {
     }
 
     pub(crate) fn alloc_object(&mut self, tag: u64, fields: u32) -> ObjAlloc<'_> {
-        let (addr, header, bytes) = self.raw_alloc(tag, fields * 8);
+        let words = fields + ptr_words(fields as usize) as u32;
+        let (addr, header, bytes) = self.raw_alloc(tag, words * 8);
+        header.wide = u16::from(words != fields);
+        let (fields, more_ptrs) = bytes_to_words_mut(bytes).split_at_mut(fields as usize);
+        more_ptrs.fill(0);
         ObjAlloc {
             addr,
             header,
-            fields: bytes_to_words_mut(bytes),
+            fields,
+            more_ptrs,
         }
     }
 
@@ -61,6 +66,7 @@ impl Heap {
         *self.bytes.obj_header(addr) = Header {
             size: total_size as u32,
             mark: 0,
+            wide: 0,
             ptrs: 0,
             tag,
         };
@@ -95,14 +101,13 @@ impl Heap {
             retained.push(current);
             retained_bytes += header.size;
             current.0 += u64::from(header.size);
-            if header.ptrs != 0 {
-                let ptrs = header.ptrs;
-                let fields = bytes_to_words(bytes);
-                pending.extend(fields.iter().copied());
-                for (i, field) in pending.drain(..).enumerate() {
-                    if ptrs & (1 << i) != 0 {
-                        self.bytes.obj_header(Addr(field)).mark = 1;
-                    }
+            if header.ptrs != 0 || header.wide != 0 {
+                let (fields, more_ptrs) = header.split_fields(bytes_to_words(bytes));
+                pending.extend(fields.iter().copied().enumerate().filter_map(|(i, field)| {
+                    is_ptr(header.ptrs, more_ptrs, i).then_some(field)
+                }));
+                for field in pending.drain(..) {
+                    self.bytes.obj_header(Addr(field)).mark = 1;
                 }
             }
         }
@@ -122,9 +127,10 @@ impl Heap {
             self.bytes.raw.copy_within((addr.0 as usize)..((addr.0 + u64::from(size)) as usize), place_at);
             self.move_dst[(addr.0 / u64::from(Header::SIZE)) as usize] = new_addr;
             let (header, fields) = self.bytes.obj_fields_mut(new_addr);
-            if header.ptrs != 0 {
+            if header.ptrs != 0 || header.wide != 0 {
+                let (fields, more_ptrs) = header.split_fields_mut(fields);
                 for (i, ptr) in fields.into_iter().enumerate() {
-                    if header.ptrs & (1 << i) != 0 {
+                    if is_ptr(header.ptrs, more_ptrs, i) {
                         *ptr = self.move_dst[(*ptr / u64::from(Header::SIZE)) as usize].0;
                     }
                 }
@@ -139,11 +145,12 @@ impl Heap {
     pub(crate) fn obj_with_fields(&self, addr: Addr) -> (u64, impl Iterator<Item = Value> + '_) {
         let (header, fields) = self.bytes.obj_fields(addr);
         let ptrs = header.ptrs;
+        let (fields, more_ptrs) = header.split_fields(fields);
         let fields = fields
             .iter()
             .copied()
             .enumerate()
-            .map(move |(i, v)| if ptrs & (1 << i) != 0 {
+            .map(move |(i, v)| if is_ptr(ptrs, more_ptrs, i) {
                 Value::Ptr(Addr(v))
             } else {
                 Value::Int(v)
@@ -227,16 +234,34 @@ fn round_up(bytes: u32) -> u32 {
     (bytes + 7) / 8 * 8
 }
 
+/// Number of extra words needed to mark which fields are pointers. Header has
+/// space for the first 64, extra words are placed after the fields.
+fn ptr_words(fields: usize) -> usize {
+    fields.saturating_sub(64).div_ceil(64)
+}
+
+fn is_ptr(ptrs: u64, more_ptrs: &[u64], field: usize) -> bool {
+    let word = match field / 64 {
+        0 => ptrs,
+        i => more_ptrs.get(i - 1).copied().unwrap_or(0),
+    };
+    word & (1 << (field % 64)) != 0
+}
+
 pub(crate) struct ObjAlloc<'a> {
     pub(crate) addr: Addr,
     header: &'a mut Header,
     fields: &'a mut [u64],
+    more_ptrs: &'a mut [u64],
 }
 
 impl ObjAlloc<'_> {
     pub(crate) fn put_ptr(&mut self, idx: usize, addr: Addr) {
         self.fields[idx] = addr.0;
-        self.header.ptrs |= 1 << idx;
+        match idx / 64 {
+            0 => self.header.ptrs |= 1 << idx,
+            i => self.more_ptrs[i - 1] |= 1 << (idx % 64),
+        }
     }
 
     pub(crate) fn put_int(&mut self, idx: usize, value: u64) {
@@ -252,7 +277,9 @@ pub(crate) struct BytesAlloc<'a> {
 #[repr(C)]
 struct Header {
     size: u32,
-    mark: u32,
+    mark: u16,
+    /// 1 if there are extra pointer words after the fields.
+    wide: u16,
     ptrs: u64,
     tag: u64,
 }
@@ -260,6 +287,25 @@ struct Header {
 impl Header {
     const SIZE: u32 = std::mem::size_of::<Header>() as u32;
 
+    /// Splits object contents into fields and extra pointer words.
+    fn split_fields<'a>(&self, words: &'a [u64]) -> (&'a [u64], &'a [u64]) {
+        words.split_at(self.field_count(words.len()))
+    }
+
+    fn split_fields_mut<'a>(&self, words: &'a mut [u64]) -> (&'a mut [u64], &'a [u64]) {
+        let (fields, more_ptrs) = words.split_at_mut(self.field_count(words.len()));
+        (fields, more_ptrs)
+    }
+
+    fn field_count(&self, words: usize) -> usize {
+        if self.wide != 0 {
+            // every extra word covers 64 fields
+            words - (words - 64).div_ceil(65)
+        } else {
+            words
+        }
+    }
+
     const _ASSERT_ALIGNED: () = assert!(Self::SIZE % 8 == 0);
 
     // does not have to be true, just a note to know what the size is
-- 
2.43.0


From 74b1d8ba74862c96ec9d8520b3360315245df62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 10/36] fix: name imported constructors in coverage errors

A match over an imported data type reported 'pattern WTF not covered' when
the missing constructor was not exposed by the importing file.
---
 ticc/src/api.rs        | 32 ++++++++++++++++++++++++++++++--
 ticc/src/api/errors.rs | 10 +---------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index cd3bd06..9db59c8 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -4,8 +4,8 @@ pub(crate) mod info;
 pub(crate) mod navigation;
 pub(crate) mod tokens;
 
-use std::collections::HashMap;
-use crate::{CompilationUnit, Pos};
+use std::collections::{HashMap, HashSet};
+use crate::{CompilationUnit, ModuleKey, Pos};
 use crate::compiler::ir;
 
 fn find_ref_at(compilation: &CompilationUnit, pos: Pos) -> Option<&ir::Ref> {
@@ -52,6 +52,34 @@ fn find_def(compilation: &CompilationUnit, symbol: ir::Symbol) -> Option<&ir::De
     None
 }
 
+/// Name of the symbol as declared in this module or, if this module does not
+/// declare it, in any of the modules it depends on.
+fn find_name(compilation: &CompilationUnit, symbol: ir::Symbol) -> Option<&str> {
+    fn go<'a>(
+        compilation: &'a CompilationUnit,
+        symbol: ir::Symbol,
+        visited: &mut HashSet<ModuleKey>,
+    ) -> Option<&'a str> {
+        if !visited.insert(compilation.key) {
+            return None;
+        }
+        if let Some(def) = find_def(compilation, symbol) {
+            return Some(&compilation.src[def.span.source_range()]);
+        }
+        for item in &compilation.items {
+            for def in &item.defs {
+                if let ir::DefKind::Module { unit } = &def.kind {
+                    if let Some(name) = go(&unit.props.unit, symbol, visited) {
+                        return Some(name);
+                    }
+                }
+            }
+        }
+        None
+    }
+    go(compilation, symbol, &mut HashSet::new())
+}
+
 struct TypePrinter<'a> {
     compilation: &'a CompilationUnit,
     name_cache: HashMap<ir::Symbol, &'a str>,
diff --git a/ticc/src/api/errors.rs b/ticc/src/api/errors.rs
index cc56e2c..5d0c3e3 100644
--- a/ticc/src/api/errors.rs
+++ b/ticc/src/api/errors.rs
@@ -50,15 +50,7 @@ fn format_message(
                 type_printer.print_type(ty, &mut message);
             }
             RawSegment::Symbol(sym) => {
-                let def = match super::find_def(compilation, *sym) {
-                    Some(d) => d,
-                    None => {
-                        message.push_str("WTF");
-                        continue;
-                    }
-                };
-                let name = &compilation.src[def.span.source_range()];
-                message.push_str(name);
+                message.push_str(super::find_name(compilation, *sym).unwrap_or("???"));
             }
         }
     }
-- 
2.43.0


From b388f16b2c35a9ed0d5553027ac78e795982124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 11/36] fix: do not treat an unnamed import as a symbol at
 every position inside it

---
 ticc/src/api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index 9db59c8..b793192 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -28,7 +28,7 @@ fn find_def_at(compilation: &CompilationUnit, pos: Pos) -> Option<&ir::Def> {
             continue;
         }
         for def in &item.defs {
-            if def.span.start() <= pos && pos <= def.span.end() {
+            if def.has_name && def.span.start() <= pos && pos <= def.span.end() {
                 return Some(&def);
             }
         }
-- 
2.43.0


From b5ddab54b878ef3bb691bca6f06e5e4b78b01057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 12/36] fix: complete names after a module prefix by the
 namespace they are used in

---
 ticc/src/api/completion.rs   | 16 ++++++++--------
 ticc/src/compiler/resolve.rs |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/ticc/src/api/completion.rs b/ticc/src/api/completion.rs
index 362d70a..347a222 100644
--- a/ticc/src/api/completion.rs
+++ b/ticc/src/api/completion.rs
@@ -78,14 +78,14 @@ fn add_keys_from<T>(completions: &mut Vec<Completion>, map: &HashMap<&str, T>) {
 }
 
 fn add_exports(completions: &mut Vec<Completion>, unit: &CompleteUnit, for_usage: resolve::NameUsage) {
-    for (name, def) in &unit.props.exports {
-        let kind = match def.kind {
-            ir::DefKind::Value {.. } => resolve::NameUsage::Value,
-            ir::DefKind::Ctor { .. } => resolve::NameUsage::Ctor,
-            ir::DefKind::Type { .. } => resolve::NameUsage::Type,
-            ir::DefKind::Module { .. } => resolve::NameUsage::Module,
-        };
-        if kind == for_usage {
+    let namespace = match for_usage {
+        resolve::NameUsage::Value => crate::Namespace::Value,
+        resolve::NameUsage::Ctor => crate::Namespace::Pattern,
+        resolve::NameUsage::Type => crate::Namespace::Type,
+        resolve::NameUsage::Module => return,
+    };
+    for name in unit.props.exports.keys() {
+        if name.namespace == namespace {
             completions.push(Completion { name: name.name.clone() })
         }
     }
diff --git a/ticc/src/compiler/resolve.rs b/ticc/src/compiler/resolve.rs
index 2f59acf..8bb64bc 100644
--- a/ticc/src/compiler/resolve.rs
+++ b/ticc/src/compiler/resolve.rs
@@ -321,7 +321,7 @@ fn resolve_type(sink: &mut impl ResolveSink, ty: node::Type<'_>, scope: &Scope<'
                 (Some(namespace), Some(name)) => {
                     sink.on_name(namespace, NameUsage::Module, scope, Namespace::None);
                     if let Some(module) = scope.lookup_module(namespace.token().text()) {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::Module(module.clone()));
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::Module(module.clone()));
                         // TODO: sink.record_ref for the module usage
                         match module.props.find_export(crate::Namespace::Type, name.token().text()) {
                             Ok(def) => {
@@ -346,7 +346,7 @@ fn resolve_type(sink: &mut impl ResolveSink, ty: node::Type<'_>, scope: &Scope<'
                             }
                         }
                     } else {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::UnresolvedModule);
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::UnresolvedModule);
                         sink.record_error(RawDiagnostic {
                             span: namespace.token().span(),
                             severity: Severity::Error,
@@ -411,7 +411,7 @@ fn resolve_type_with_vars<'a>(sink: &mut impl ResolveSink, module: ModuleKey, ty
                 (Some(namespace), Some(name)) => {
                     sink.on_name(namespace, NameUsage::Module, scope, Namespace::None);
                     if let Some(module) = scope.lookup_module(namespace.token().text()) {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::Module(module.clone()));
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::Module(module.clone()));
                         // TODO: sink.record_ref for the module usage
                         match module.props.find_export(crate::Namespace::Type, name.token().text()) {
                             Ok(def) => {
@@ -436,7 +436,7 @@ fn resolve_type_with_vars<'a>(sink: &mut impl ResolveSink, module: ModuleKey, ty
                             }
                         }
                     } else {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::UnresolvedModule);
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::UnresolvedModule);
                         sink.record_error(RawDiagnostic {
                             span: namespace.token().span(),
                             severity: Severity::Error,
-- 
2.43.0


From 46646cc5c217295e34aa7325c51a5396e8594f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 13/36] fix: an imported name is used when any of its meanings
 is

---
 ticc/src/lint/unused.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ticc/src/lint/unused.rs b/ticc/src/lint/unused.rs
index fc1d193..91f8b5e 100644
--- a/ticc/src/lint/unused.rs
+++ b/ticc/src/lint/unused.rs
@@ -24,6 +24,14 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
     }
     let extras = used.iter().filter_map(|s| deps.get(s).copied()).collect::<Vec<_>>();
     used.extend(extras);
+    // an imported name declares everything the module exports under that name,
+    // it is used when any of those things are
+    let used_spans = compilation.items
+        .iter()
+        .flat_map(|item| &item.defs)
+        .filter(|d| used.contains(&d.symbol))
+        .map(|d| d.span)
+        .collect::<HashSet<_>>();
     let mut lints = Vec::new();
     for item in &compilation.items {
         for d in &item.defs {
@@ -32,7 +40,7 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
                 continue;
             }
             let name = &compilation.src[d.span.source_range()];
-            if !used.contains(&d.symbol) && name.chars().next() != Some('_') {
+            if !used_spans.contains(&d.span) && name.chars().next() != Some('_') {
                 lints.push(RawDiagnostic {
                     span: d.span,
                     severity: Severity::Warning,
-- 
2.43.0


From 32b75418e1990285a2894f28165330e8488a32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 14/36] fix: hovering over an expression that was not type
 checked

---
 ticc/src/api/info.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ticc/src/api/info.rs b/ticc/src/api/info.rs
index 8f598d1..49270da 100644
--- a/ticc/src/api/info.rs
+++ b/ticc/src/api/info.rs
@@ -48,10 +48,11 @@ fn def_info(compilation: &CompilationUnit, pos: Pos) -> Option<Info> {
 
 fn expr_info(compilation: &CompilationUnit, pos: Pos) -> Option<Info> {
     let (item, expr) = find_expr_at_pos(compilation, pos)?;
-    let ty = &item.types[&expr.syntax().id()];
+    // expressions in malformed match cases are not checked and have no type
+    let ty = item.types.get(&expr.syntax().id())?;
     let mut type_printer = super::TypePrinter::new(compilation);
     let mut doc = String::new();
-    type_printer.print_type(&ty, &mut doc);
+    type_printer.print_type(ty, &mut doc);
     Some(Info {
         span: expr.syntax().span(),
         doc,
-- 
2.43.0


From b3db4cb4e77f570b71f6841877945683a58d3280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 15/36] fix: constructors of a type declaration without a name

---
 ticc/src/api.rs              |  4 ++--
 ticc/src/compiler/resolve.rs | 22 +++++++++++++++++-----
 ticc/src/lint/unused.rs      |  3 +++
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index b793192..b3b4092 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -63,7 +63,7 @@ fn find_name(compilation: &CompilationUnit, symbol: ir::Symbol) -> Option<&str>
         if !visited.insert(compilation.key) {
             return None;
         }
-        if let Some(def) = find_def(compilation, symbol) {
+        if let Some(def) = find_def(compilation, symbol).filter(|def| def.has_name) {
             return Some(&compilation.src[def.span.source_range()]);
         }
         for item in &compilation.items {
@@ -146,7 +146,7 @@ impl<'a> TypePrinter<'a> {
         if let Some(name) = self.name_cache.get(&symbol).copied() {
             return name;
         }
-        let Some(def) = find_def(self.compilation, symbol) else {
+        let Some(def) = find_def(self.compilation, symbol).filter(|def| def.has_name) else {
             // TODO: figure out names for defs from other modules
             return "???";
         };
diff --git a/ticc/src/compiler/resolve.rs b/ticc/src/compiler/resolve.rs
index 8bb64bc..9355d4a 100644
--- a/ticc/src/compiler/resolve.rs
+++ b/ticc/src/compiler/resolve.rs
@@ -210,15 +210,16 @@ fn resolve_type_item(sink: &mut impl ResolveSink, module: ModuleKey, item: node:
         let sym = resolve_type_case(sink, module, case, &scope, symbol, &param_symbols, &mut ctor_names, ctor_vis);
         ctors.extend(sym);
     }
+    let kind = ir::DefKind::Type {
+        param_count: param_symbols.len(),
+        is_var: false,
+        ctors: ir::Ctors::List(ctors),
+    };
     if let Some(name) = item.name() {
         sink.record_def(ir::Def::new(
             module,
             symbol,
-            ir::DefKind::Type {
-                param_count: param_symbols.len(),
-                is_var: false,
-                ctors: ir::Ctors::List(ctors),
-            },
+            kind,
             if item.export_token().is_some() {
                 ir::Visibility::Export
             } else {
@@ -226,6 +227,17 @@ fn resolve_type_item(sink: &mut impl ResolveSink, module: ModuleKey, item: node:
             },
             name,
         ));
+    } else {
+        // constructors still refer to the type
+        sink.record_def(ir::Def {
+            module,
+            symbol,
+            kind,
+            vis: ir::Visibility::Module,
+            span: item.syntax().span(),
+            node: item.syntax().id(),
+            has_name: false,
+        });
     }
 }
 
diff --git a/ticc/src/lint/unused.rs b/ticc/src/lint/unused.rs
index 91f8b5e..0a16c09 100644
--- a/ticc/src/lint/unused.rs
+++ b/ticc/src/lint/unused.rs
@@ -39,6 +39,9 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
             if matches!(d.kind, DefKind::Module { .. }) {
                 continue;
             }
+            if !d.has_name {
+                continue;
+            }
             let name = &compilation.src[d.span.source_range()];
             if !used_spans.contains(&d.span) && name.chars().next() != Some('_') {
                 lints.push(RawDiagnostic {
-- 
2.43.0


From 0b590a66838de8607e65f0d936b9301fdd481831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 16/36] fix: take, skip and range of lists finish for any
 counts

---
 ticc/src/std/list.tic | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/ticc/src/std/list.tic b/ticc/src/std/list.tic
index 9d4ab38..d5ea204 100644
--- a/ticc/src/std/list.tic
+++ b/ticc/src/std/list.tic
@@ -159,6 +159,22 @@ export let allOk : List (Result a e) -> Result (List a) e =
             end
         end;
 
+export let length : List a -> int =
+    \fold list ->
+        match list with
+        | Nil -> 0
+        | Cons _ xs -> 1 + xs
+        end;
+
+-- count limited to the length of the list
+let atMostLength : int -> List a -> int =
+    \count -> \list ->
+        let len = length list;
+        if count < len then
+            count
+        else
+            len;
+
 export let skip : int -> List a -> List a =
     \x -> \list ->
         let step = \l ->
@@ -166,7 +182,7 @@ export let skip : int -> List a -> List a =
             | Nil -> Nil
             | Cons _ xs -> xs
             end;
-        i.iterate x step list;
+        i.iterate (atMostLength x list) step list;
 
 type TakeState a = TakeState (List a) (List a);
 
@@ -180,17 +196,10 @@ export let take : int -> List a -> List a =
                 | Cons x xs -> TakeState (Cons x a) xs
                 end
             end;
-        match i.iterate x step (TakeState Nil list) with
+        match i.iterate (atMostLength x list) step (TakeState Nil list) with
         | TakeState a _ -> reverse a
         end;
 
-export let length : List a -> int =
-    \fold list ->
-        match list with
-        | Nil -> 0
-        | Cons _ xs -> 1 + xs
-        end;
-
 export let foldr : (a -> b -> b) -> b -> List a -> b =
     \f -> \init -> \fold list ->
         match list with
@@ -306,7 +315,7 @@ export let range : int -> int -> List int =
             match state with
             | RangeState i acc -> RangeState (i - 1) (Cons i acc)
             end;
-        let steps = stop - start;
+        let steps = if stop < start then 0 else stop - start;
         match i.iterate steps step (RangeState (stop - 1) Nil) with
         | RangeState _ res -> res
         end;
-- 
2.43.0


From 3e9b2437b52e6e245e48d760098e2d547988cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 17/36] fix: parsing numbers that do not fit into 64 bits

---
 ticc/src/std/int.tic | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ticc/src/std/int.tic b/ticc/src/std/int.tic
index d161eb3..b38b8f1 100644
--- a/ticc/src/std/int.tic
+++ b/ticc/src/std/int.tic
@@ -22,7 +22,12 @@ export let parse : string -> Result int ParseErr =
                 else if ch >= 58 then
                     Error
                 else
-                    Parsing (idx + 1) (acc * 10 + (ch - 48))
+                    let next = acc * 10 + (ch - 48);
+                    -- the number does not fit if it wrapped around
+                    if next / 10 != acc then
+                        Error
+                    else
+                        Parsing (idx + 1) next
             | Error ->
                 Error
             end;
-- 
2.43.0


From 345082b730318fb576651ffc7ecbb73c9317da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 18/36] fix: the last exported main is the one that runs

---
 ticc/src/interpreter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ticc/src/interpreter.rs b/ticc/src/interpreter.rs
index 5952639..53e4931 100644
--- a/ticc/src/interpreter.rs
+++ b/ticc/src/interpreter.rs
@@ -58,6 +58,7 @@ fn do_eval_main<F>(compilation: &mut CompilationUnit, runner: ExecFn<F>, input:
                 ir::Ty::Fn(a, b) => match (a.as_slice(), &**b) {
                     (&[ir::Ty::String], ir::Ty::String) => {
                         main = Some(v.name);
+                        break;
                     }
                     _ => return Err(InterpretError::InvalidMain),
                 },
-- 
2.43.0


From 349c2921ea69a3e574ae35005438036e19abd414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 19/36] fix: bytes printed by a program are not replaced

---
 ticc/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ticc/src/main.rs b/ticc/src/main.rs
index f23bb65..607a9d1 100644
--- a/ticc/src/main.rs
+++ b/ticc/src/main.rs
@@ -1,4 +1,4 @@
-use std::{path::{Path, PathBuf}, sync::{Arc, Mutex}, collections::HashMap, io::Read};
+use std::{path::{Path, PathBuf}, sync::{Arc, Mutex}, collections::HashMap, io::{Read, Write}};
 use codespan_reporting as cr;
 use structopt::StructOpt;
 use ticc::{CompleteUnit, Diagnostic, CompilationUnit, Severity, ModuleResolver, Runner};
@@ -146,7 +146,13 @@ fn main() {
         };
         let output_file = opt.output.unwrap_or_else(|| "-".into());
         if output_file == Path::new("-") {
-            println!("{}", String::from_utf8_lossy(&result));
+            let mut output = result;
+            output.push(b'\n');
+            std::io::stdout().write_all(&output).unwrap_or_else(|e| {
+                eprintln!("error: cannot write output");
+                eprintln!("    {}", e);
+                std::process::exit(1);
+            });
         } else {
             std::fs::write(&output_file, result).unwrap_or_else(|e| {
                 eprintln!("error: cannot write {}", path.display());
-- 
2.43.0


From c3d2ffdd15e919de096ccda67d2d0f9a516ce73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 20/36] fix: a file imported by different spellings of its path
 is one module

---
 ticc/src/main.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ticc/src/main.rs b/ticc/src/main.rs
index 607a9d1..c97da38 100644
--- a/ticc/src/main.rs
+++ b/ticc/src/main.rs
@@ -232,6 +232,7 @@ impl FileModuleResolver {
             props: Default::default(),
         });
         let child = Arc::new(ChildResolver {
+            key: file_key(&path),
             path,
             root: resolver.clone(),
             parent: None,
@@ -240,8 +241,14 @@ impl FileModuleResolver {
     }
 }
 
+/// Identifies a file no matter how the path to it is written.
+fn file_key(path: &Path) -> PathBuf {
+    std::fs::canonicalize(path).unwrap_or_else(|_| path.to_owned())
+}
+
 struct ChildResolver {
     path: PathBuf,
+    key: PathBuf,
     root: Arc<FileModuleResolver>,
     parent: Option<Arc<ChildResolver>>,
 }
@@ -260,9 +267,10 @@ impl ChildResolver {
 impl ModuleResolver for ChildResolver {
     fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ticc::ImportError> {
         let path = self.relative_lookup(name);
+        let key = file_key(&path);
         let mut resolver = &*self;
         loop {
-            if resolver.path == path {
+            if resolver.key == key {
                 return Err(ticc::ImportError::ImportCycle);
             }
             match &resolver.parent {
@@ -273,7 +281,7 @@ impl ModuleResolver for ChildResolver {
 
         {
             let root = self.root.props.lock().unwrap();
-            if let Some(unit) = root.cache.get(&path).cloned() {
+            if let Some(unit) = root.cache.get(&key).cloned() {
                 return Ok(unit);
             }
         }
@@ -285,6 +293,7 @@ impl ModuleResolver for ChildResolver {
 
         let child_resolver = Arc::new(ChildResolver {
             path: path.clone(),
+            key: key.clone(),
             root: self.root.clone(),
             parent: Some(self.clone()),
         });
@@ -299,7 +308,7 @@ impl ModuleResolver for ChildResolver {
 
         {
             let mut root = self.root.props.lock().unwrap();
-            root.cache.insert(path.clone(), unit.clone());
+            root.cache.insert(key, unit.clone());
         }
 
         if diagnostics.iter().any(|d| d.severity == Severity::Error) {
-- 
2.43.0


From 2fa69209a1df8b2a069b8f72a8988bf6330dcc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 21/36] fix: language server survives requests about documents
 that are not open

---
 ticc-lsp/src/handlers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index 9a70bfd..3381b01 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -10,7 +10,7 @@ fn semantic_tokens(
     params: lsp_types::SemanticTokensParams,
 ) -> Option<lsp_types::SemanticTokensResult> {
     let key = FileKey::from(params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let tokens = crate::semantic_tokens::get_semantic_tokens(&mut compilation.unit);
     Some(lsp_types::SemanticTokensResult::Tokens(lsp_types::SemanticTokens {
         result_id: None,
@@ -23,7 +23,7 @@ fn go_to_definition(
     params: lsp_types::GotoDefinitionParams,
 ) -> Option<lsp_types::GotoDefinitionResponse> {
     let key = FileKey::from(params.text_document_position_params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position_params.position;
     if let Some(range) = crate::go_to_definition::find_definition(&mut compilation.unit, pos) {
         Some(lsp_types::GotoDefinitionResponse::Scalar(lsp_types::Location {
@@ -40,7 +40,7 @@ fn find_references(
     params: lsp_types::ReferenceParams,
 ) -> Option<Vec<lsp_types::Location>> {
     let key = FileKey::from(params.text_document_position.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position.position;
     let references = crate::find_references::find_references(&mut compilation.unit, pos)?;
     let mut references = references
@@ -66,7 +66,7 @@ fn hover(
     params: lsp_types::HoverParams,
 ) -> Option<lsp_types::Hover> {
     let key = FileKey::from(params.text_document_position_params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position_params.position;
     crate::hover::hover(&mut compilation.unit, pos)
 }
@@ -76,7 +76,7 @@ fn completions(
     params: lsp_types::CompletionParams,
 ) -> Option<lsp_types::CompletionResponse> {
     let key = FileKey::from(params.text_document_position.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position.position;
     crate::completions::completions(&mut compilation.unit, pos)
 }
-- 
2.43.0


From e7f061af61301e7ea1cc0ece489175400ee5797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 22/36] fix: language server answers requests it does not
 support

---
 ticc-lsp/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index ff5136f..17c2818 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -167,6 +167,11 @@ impl Handlers {
             }
         }
         eprintln!("unhandled request: {:?}", request.method);
+        server.sender.send(Message::Response(lsp_server::Response::new_err(
+            request.id,
+            lsp_server::ErrorCode::MethodNotFound as i32,
+            format!("unsupported method: {}", request.method),
+        ))).unwrap();
         Ok(())
     }
 
-- 
2.43.0


From ae0ca3d68a1df9137476e62a4dbde102bc738455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 23/36] fix: language server survives messages with wrong
 parameters

---
 ticc-lsp/src/main.rs | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 17c2818..b944451 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -89,18 +89,23 @@ impl RequestHandler {
     {
         RequestHandler {
             handler: Box::new(move |server, request| {
-                match request.extract::<R::Params>(R::METHOD) {
-                    Ok((id, params)) => {
-                        let result = handler(server, params);
-                        let response = lsp_server::Response {
-                            id,
-                            result: Some(serde_json::to_value(&result).unwrap()),
-                            error: None,
-                        };
-                        Ok(response)
-                    }
-                    Err(req) => Err(req),
+                if request.method != R::METHOD {
+                    return Err(request);
                 }
+                let params = match serde_json::from_value::<R::Params>(request.params) {
+                    Ok(params) => params,
+                    Err(err) => return Ok(lsp_server::Response::new_err(
+                        request.id,
+                        lsp_server::ErrorCode::InvalidParams as i32,
+                        err.to_string(),
+                    )),
+                };
+                let result = handler(server, params);
+                Ok(lsp_server::Response {
+                    id: request.id,
+                    result: Some(serde_json::to_value(&result).unwrap()),
+                    error: None,
+                })
             }),
         }
     }
@@ -118,13 +123,14 @@ impl NotificationHandler {
     {
         NotificationHandler {
             handler: Box::new(move |server, notification| {
-                match notification.extract::<N::Params>(N::METHOD) {
-                    Ok(params) => {
-                        handler(server, params);
-                        Ok(())
-                    }
-                    Err(n) => Err(n),
+                if notification.method != N::METHOD {
+                    return Err(notification);
                 }
+                match serde_json::from_value::<N::Params>(notification.params) {
+                    Ok(params) => handler(server, params),
+                    Err(err) => eprintln!("bad parameters for {}: {}", N::METHOD, err),
+                }
+                Ok(())
             }),
         }
     }
-- 
2.43.0


From 5bc72455b02437b3da3e4b487fa65a8c6ac2a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 24/36] fix: language server takes the last of several changes

---
 ticc-lsp/src/handlers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index 3381b01..fe0ea05 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -95,7 +95,12 @@ fn on_change(
     params: lsp_types::DidChangeTextDocumentParams,
 ) {
     let key = FileKey::from(params.text_document.uri);
-    server.files.set(key.clone(), &params.content_changes[0].text);
+    // every change has the full text of the document, so only the last one counts
+    let change = match params.content_changes.last() {
+        Some(change) => change,
+        None => return,
+    };
+    server.files.set(key.clone(), &change.text);
     on_file_update(server, key);
 }
 
-- 
2.43.0


From 0501fac8df4d29e53cadcb4ece7619697373d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 25/36] fix: closing a document in the editor drops its unsaved
 text

---
 ticc-lsp/src/handlers.rs | 5 ++++-
 ticc-lsp/src/main.rs     | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index fe0ea05..db45669 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -110,7 +110,10 @@ fn on_close(
 ) {
     let key = FileKey::from(params.text_document.uri);
     server.compilations.remove_file(&key);
-    clear_diagnostics(server, key);
+    // other files see the document as it is on the disk from now on
+    server.files.reload(&key);
+    clear_diagnostics(server, key.clone());
+    on_file_update(server, key);
 }
 
 fn on_file_update(
diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index b944451..fbfd382 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -324,6 +324,13 @@ impl FileSet {
             });
     }
 
+    fn reload(&self, key: &FileKey) {
+        if let Some(file) = self.files.lock().unwrap().get_mut(key) {
+            file.content = self.read_file(key).map(Into::into).map_err(|e| e.kind());
+            file.version += 1;
+        }
+    }
+
     fn get(&self, key: &FileKey) -> FileContent {
         let x = self.files
             .lock()
-- 
2.43.0


From f5d99efa4b8d8f52c7d52df07fd95a4fa6572ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 26/36] fix: importing a missing module twice is not an import
 cycle in the editor

---
 ticc-lsp/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index fbfd382..b398c6c 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -424,10 +424,17 @@ impl ModuleResolver for CompilationModuleResolver {
         };
 
         let source = self.files.get(&key);
+        let source_text = match source.content {
+            Ok(text) => Ok(text),
+            Err(std::io::ErrorKind::NotFound) => Err(ticc::ImportError::DoesNotExist),
+            Err(other) => Err(ticc::ImportError::Io(other.into())),
+        };
 
         match self.dependencies.lock().unwrap().entry(key.clone()) {
             Entry::Occupied(e) => match e.get().unit.clone() {
                 None => {
+                    // modules that cannot be read never get a unit
+                    source_text?;
                     return Err(ticc::ImportError::ImportCycle);
                 }
                 Some(unit) => {
@@ -442,11 +449,7 @@ impl ModuleResolver for CompilationModuleResolver {
             }
         }
 
-        let source_text = match source.content {
-            Ok(text) => text,
-            Err(std::io::ErrorKind::NotFound) => return Err(ticc::ImportError::DoesNotExist),
-            Err(other) => return Err(ticc::ImportError::Io(other.into())),
-        };
+        let source_text = source_text?;
 
         let subresolver = Arc::new(CompilationModuleResolver {
             current_key: key.clone(),
-- 
2.43.0


From 43c528356e197439bca3c4cf87103c57cef75006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 27/36] fix: import cycles are shown in the editor

---
 ticc-lsp/src/main.rs | 50 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index b398c6c..00f5cff 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -10,7 +10,7 @@ mod utils;
 #[cfg(test)]
 mod tests;
 
-use std::{collections::{hash_map::Entry, HashMap}, path::Path, sync::{Arc, Mutex}};
+use std::{collections::{hash_map::Entry, HashMap, HashSet}, path::Path, sync::{Arc, Mutex}};
 use crossbeam_channel::Sender;
 use lsp_types::{
     CompletionOptions,
@@ -360,6 +360,7 @@ impl FileSet {
 struct Dependency {
     unit: Option<CompleteUnit>,
     source_version: u64,
+    imports: Vec<FileKey>,
 }
 
 struct Compilation {
@@ -387,7 +388,14 @@ impl Compilation {
             let source_text = source.content.ok().unwrap_or_default();
 
             self.source_version = source.version;
-            self.dependencies.lock().unwrap().clear();
+            let mut dependencies = self.dependencies.lock().unwrap();
+            dependencies.clear();
+            dependencies.insert(self.key.clone(), Dependency {
+                unit: None,
+                source_version: source.version,
+                imports: Vec::new(),
+            });
+            drop(dependencies);
             self.unit = CompilationUnit::new(
                 &source_text,
                 ticc::Options::default(),
@@ -430,7 +438,12 @@ impl ModuleResolver for CompilationModuleResolver {
             Err(other) => Err(ticc::ImportError::Io(other.into())),
         };
 
-        match self.dependencies.lock().unwrap().entry(key.clone()) {
+        let mut dependencies = self.dependencies.lock().unwrap();
+        if let Some(importer) = dependencies.get_mut(&self.current_key) {
+            importer.imports.push(key.clone());
+        }
+
+        match dependencies.entry(key.clone()) {
             Entry::Occupied(e) => match e.get().unit.clone() {
                 None => {
                     // modules that cannot be read never get a unit
@@ -438,16 +451,22 @@ impl ModuleResolver for CompilationModuleResolver {
                     return Err(ticc::ImportError::ImportCycle);
                 }
                 Some(unit) => {
-                    return Ok(unit.clone())
+                    return if leads_to(&dependencies, &key, &self.current_key) {
+                        Err(ticc::ImportError::ImportCycle)
+                    } else {
+                        Ok(unit)
+                    };
                 }
             }
             Entry::Vacant(e) => {
                 e.insert(Dependency {
                     unit: None,
                     source_version: source.version,
+                    imports: Vec::new(),
                 });
             }
         }
+        drop(dependencies);
 
         let source_text = source_text?;
 
@@ -463,8 +482,29 @@ impl ModuleResolver for CompilationModuleResolver {
             subresolver,
         ).complete();
 
-        self.dependencies.lock().unwrap().get_mut(&key).unwrap().unit = Some(unit.clone());
+        let mut dependencies = self.dependencies.lock().unwrap();
+        dependencies.get_mut(&key).unwrap().unit = Some(unit.clone());
+
+        // every import that is a part of a cycle is an error, no matter which
+        // of the files was compiled first
+        if leads_to(&dependencies, &key, &self.current_key) {
+            return Err(ticc::ImportError::ImportCycle);
+        }
 
         Ok(unit)
     }
 }
+
+fn leads_to(dependencies: &HashMap<FileKey, Dependency>, from: &FileKey, to: &FileKey) -> bool {
+    let mut seen = HashSet::new();
+    let mut stack = vec![from];
+    while let Some(key) = stack.pop() {
+        if key == to {
+            return true;
+        }
+        if seen.insert(key) {
+            stack.extend(dependencies.get(key).iter().flat_map(|dep| &dep.imports));
+        }
+    }
+    false
+}
-- 
2.43.0


From 419840faa8e37dc56a20e01149366c990e7e8fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 28/36] fix: positions past the end of a line are not in the
 next lines

---
 ticc-lsp/src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/utils.rs b/ticc-lsp/src/utils.rs
index 87d146d..602e138 100644
--- a/ticc-lsp/src/utils.rs
+++ b/ticc-lsp/src/utils.rs
@@ -101,7 +101,8 @@ impl ToTicc for Position {
     type TiccRepr = Pos;
 
     fn to_ticc(self, translator: &mut LocationTranslator<'_>) -> Self::TiccRepr {
-        while !translator.complete && translator.line_starts.len() <= self.line as usize {
+        // the end of the line is known only after finding the start of the next one
+        while !translator.complete && translator.line_starts.len() <= self.line as usize + 1 {
             translator.find_next_line_position();
         }
         let current = translator.line_starts.get(self.line as usize).copied();
-- 
2.43.0


From b16807aaf17e77b24dec5a824d0b7cbfd79e6129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:14 +0000
Subject: [PATCH 29/36] fix: the editor and the language server agree on what
 ends a line

---
 ticc-lsp/src/semantic_tokens.rs | 22 +++++++---------------
 ticc-lsp/src/utils.rs           | 17 ++++++++---------
 2 files changed, 15 insertions(+), 24 deletions(-)

diff --git a/ticc-lsp/src/semantic_tokens.rs b/ticc-lsp/src/semantic_tokens.rs
index bec5ec4..9e150e5 100644
--- a/ticc-lsp/src/semantic_tokens.rs
+++ b/ticc-lsp/src/semantic_tokens.rs
@@ -1,39 +1,31 @@
-use lsp_types::SemanticToken;
+use lsp_types::{Position, SemanticToken};
 use ticc::{CompilationUnit, TokenKind};
+use crate::utils::LocationTranslator;
 
 pub fn get_semantic_tokens(compilation: &mut CompilationUnit) -> Vec<SemanticToken> {
     let src: &str = &compilation.source();
 
     let mut result = Vec::new();
 
-    let mut last_token_pos = (0, 0);
-    let mut current_pos = (0, 0);
-    let mut last_token_start = 0;
+    let mut translator = LocationTranslator::for_source(src);
+    let mut last_token_pos = Position { line: 0, character: 0 };
 
     for token in compilation.tokens() {
         let start_offset = token.span.start().source_pos();
         let end_offset = token.span.end().source_pos();
-        for c in src[last_token_start..start_offset].chars() {
-            if c == '\n' {
-                current_pos.0 += 1;
-                current_pos.1 = 0;
-            } else {
-                current_pos.1 += c.len_utf16() as u32;
-            }
-        }
+        let current_pos = translator.to_lsp(token.span.start());
 
         let length = src[start_offset..end_offset].encode_utf16().count() as u32;
 
-        let delta_line = current_pos.0 - last_token_pos.0;
+        let delta_line = current_pos.line - last_token_pos.line;
         result.push(SemanticToken {
             delta_line,
-            delta_start: current_pos.1 - if delta_line == 0 { last_token_pos.1 } else { 0 },
+            delta_start: current_pos.character - if delta_line == 0 { last_token_pos.character } else { 0 },
             length,
             token_type: token_type(token.kind),
             token_modifiers_bitset: 0,
         });
         last_token_pos = current_pos;
-        last_token_start = start_offset;
     }
 
     result
diff --git a/ticc-lsp/src/utils.rs b/ticc-lsp/src/utils.rs
index 602e138..368240a 100644
--- a/ticc-lsp/src/utils.rs
+++ b/ticc-lsp/src/utils.rs
@@ -37,11 +37,11 @@ impl<'a> LocationTranslator<'a> {
     fn find_next_line_position(&mut self) {
         let last = *self.line_starts.last().unwrap();
         let suffix = &self.source[last..];
-        for (i, c) in suffix.char_indices() {
-            if c == '\n' {
-                self.line_starts.push(last + i + 1);
-                return;
-            }
+        // lines can end with "\n", "\r\n", or "\r"
+        if let Some(i) = suffix.find(|c| c == '\n' || c == '\r') {
+            let length = if suffix[i..].starts_with("\r\n") { 2 } else { 1 };
+            self.line_starts.push(last + i + length);
+            return;
         }
         self.complete = true;
     }
@@ -109,11 +109,10 @@ impl ToTicc for Position {
         let next = translator.line_starts.get(self.line as usize + 1).copied();
         match (current, next) {
             (Some(line_start), next) => {
-                let line_end = match next {
-                    Some(next) => next - 1,
-                    None => translator.source.len(),
-                };
+                let line_end = next.unwrap_or(translator.source.len());
                 let line_source = &translator.source[line_start..line_end];
+                let line_source = line_source.trim_end_matches(|c| c == '\n' || c == '\r');
+                let line_end = line_start + line_source.len();
                 let mut current = 0;
                 for (i, c) in line_source.char_indices() {
                     current += c.len_utf16();
-- 
2.43.0


From d5e9eb37e557b4bc1b6dcf225293fdf90042b784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 30/36] fix: the editor finds files with special characters in
 their names

---
 ticc-lsp/src/main.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 00f5cff..7f16a60 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -39,7 +39,11 @@ struct FileKey(lsp_types::Url);
 
 impl From<lsp_types::Url> for FileKey {
     fn from(url: lsp_types::Url) -> FileKey {
-        FileKey(url)
+        // editors differ in what characters of a path they encode
+        match url.to_file_path().ok().and_then(|path| lsp_types::Url::from_file_path(path).ok()) {
+            Some(url) => FileKey(url),
+            None => FileKey(url),
+        }
     }
 }
 
@@ -421,7 +425,13 @@ struct CompilationModuleResolver {
 
 impl CompilationModuleResolver {
     fn name_to_key(&self, name: &str) -> Option<FileKey> {
-        self.current_key.0.join(name).ok().map(FileKey)
+        // the name is a path, not an URL
+        let name = name
+            .replace('%', "%25")
+            .replace('?', "%3F")
+            .replace('#', "%23")
+            .replace(' ', "%20");
+        self.current_key.0.join(&name).ok().map(FileKey::from)
     }
 }
 
-- 
2.43.0


From d6243951c243e5611df84c5dbc02c796c97d8b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 31/36] hook: control over garbage collection with --cfg tic_mc

---
 ticc-eval/src/bytecode.rs |  4 ++--
 ticc-eval/src/lib.rs      |  1 +
 ticc-eval/src/mc.rs       | 33 +++++++++++++++++++++++++++++++++
 3 files changed, 36 insertions(+), 2 deletions(-)
 create mode 100644 ticc-eval/src/mc.rs

diff --git a/ticc-eval/src/bytecode.rs b/ticc-eval/src/bytecode.rs
index 2b57a68..4b881b2 100644
--- a/ticc-eval/src/bytecode.rs
+++ b/ticc-eval/src/bytecode.rs
@@ -380,14 +380,14 @@ impl Runtime {
     }
 
     fn maybe_gc(&mut self) {
-        if self.heap.allocated() > self.heap.capacity() / 2 {
+        if self.heap.allocated() > self.heap.capacity() / 2 || crate::mc::collect_now() {
             self.gc();
         }
     }
 
     /// Makes sure that the next allocation of given size succeeds.
     fn reserve(&mut self, size: u32) {
-        if self.heap.free_space() < size as usize {
+        if self.heap.free_space() < size as usize || crate::mc::collect_now() {
             let roots = self.stack.ptrs()
                 .chain(self.consts.iter_mut())
                 .chain(std::iter::once(&mut self.bools.t))
diff --git a/ticc-eval/src/lib.rs b/ticc-eval/src/lib.rs
index 503aefd..0b1ce14 100644
--- a/ticc-eval/src/lib.rs
+++ b/ticc-eval/src/lib.rs
@@ -3,6 +3,7 @@ mod compile;
 mod heap;
 pub mod jit;
 pub mod lambda;
+pub mod mc;
 mod tagged;
 pub mod treewalk;
 
diff --git a/ticc-eval/src/mc.rs b/ticc-eval/src/mc.rs
new file mode 100644
index 0000000..e5121e3
--- /dev/null
+++ b/ticc-eval/src/mc.rs
@@ -0,0 +1,33 @@
+//! Control over garbage collection for model checking, with `--cfg tic_mc`.
+//! Without it there is nothing to control and nothing here does anything.
+
+#![allow(unexpected_cfgs)]
+
+#[cfg(tic_mc)]
+mod enabled {
+    use std::cell::RefCell;
+
+    thread_local! {
+        static PLAN: RefCell<Option<Box<dyn FnMut() -> bool>>> = RefCell::new(None);
+    }
+
+    /// Sets what decides at every possible point if garbage is collected there
+    /// even though there is enough space.
+    pub fn set_plan(plan: Option<Box<dyn FnMut() -> bool>>) {
+        PLAN.with(|p| *p.borrow_mut() = plan);
+    }
+
+    pub(crate) fn collect_now() -> bool {
+        PLAN.with(|p| p.borrow_mut().as_mut().map_or(false, |plan| plan()))
+    }
+}
+
+#[cfg(tic_mc)]
+pub use enabled::set_plan;
+#[cfg(tic_mc)]
+pub(crate) use enabled::collect_now;
+
+#[cfg(not(tic_mc))]
+pub(crate) fn collect_now() -> bool {
+    false
+}
-- 
2.43.0


From 5ad0afce65bdb290ca054f3bfeefcd0a9bfa3597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:12 +0000
Subject: [PATCH 32/36] hook: control over synchronization with --cfg tic_mc

---
 ticc/src/builtin.rs     |   2 +-
 ticc/src/compiler/ir.rs |   2 +-
 ticc/src/lib.rs         |   4 +-
 ticc/src/sync.rs        | 117 ++++++++++++++++++++++++++++++++++++++++
 4 files changed, 122 insertions(+), 3 deletions(-)
 create mode 100644 ticc/src/sync.rs

diff --git a/ticc/src/builtin.rs b/ticc/src/builtin.rs
index 845e3fc..05a6ed6 100644
--- a/ticc/src/builtin.rs
+++ b/ticc/src/builtin.rs
@@ -1,4 +1,4 @@
-use std::sync::Mutex;
+use crate::sync::Mutex;
 
 use crate::{CompleteUnit, CompilationUnit, NoopModuleResolver, compiler::ir::{self, Visibility}};
 
diff --git a/ticc/src/compiler/ir.rs b/ticc/src/compiler/ir.rs
index 4492d6c..99b2148 100644
--- a/ticc/src/compiler/ir.rs
+++ b/ticc/src/compiler/ir.rs
@@ -19,7 +19,7 @@ pub(crate) struct Symbol(u64);
 
 impl Symbol {
     pub(crate) fn fresh() -> Symbol {
-        use std::sync::atomic;
+        use crate::sync::atomic;
         static NEXT: atomic::AtomicU64 = atomic::AtomicU64::new(0);
         let value = NEXT.fetch_add(1, atomic::Ordering::Relaxed);
         Symbol(value)
diff --git a/ticc/src/lib.rs b/ticc/src/lib.rs
index 19745e6..d44bbc2 100644
--- a/ticc/src/lib.rs
+++ b/ticc/src/lib.rs
@@ -7,6 +7,8 @@ pub(crate) mod import;
 pub(crate) mod interpreter;
 pub(crate) mod lint;
 pub(crate) mod api;
+#[doc(hidden)]
+pub mod sync;
 
 use std::collections::HashMap;
 use std::fmt;
@@ -257,7 +259,7 @@ pub struct ModuleKey(u64);
 
 impl ModuleKey {
     fn fresh_key() -> ModuleKey {
-        use std::sync::atomic;
+        use crate::sync::atomic;
         static NEXT: atomic::AtomicU64 = atomic::AtomicU64::new(0);
         let value = NEXT.fetch_add(1, atomic::Ordering::Relaxed);
         ModuleKey(value)
diff --git a/ticc/src/sync.rs b/ticc/src/sync.rs
new file mode 100644
index 0000000..66de652
--- /dev/null
+++ b/ticc/src/sync.rs
@@ -0,0 +1,117 @@
+//! Synchronization primitives of the compiler. With `--cfg tic_mc` they tell a
+//! scheduler what threads are about to do, so that a model checker can explore
+//! their interleavings.
+#![allow(unexpected_cfgs)]
+
+#[cfg(not(tic_mc))]
+pub(crate) use std::sync::{Mutex, atomic};
+
+#[cfg(tic_mc)]
+pub(crate) use self::mc::{Mutex, atomic};
+
+#[cfg(tic_mc)]
+pub mod mc {
+    use std::ops::{Deref, DerefMut};
+    use std::sync::{LockResult, OnceLock};
+
+    pub trait Scheduler: Send + Sync {
+        /// The current thread is about to access an atomic variable.
+        fn access(&self);
+        /// The current thread is about to take a lock, returns when it can.
+        fn acquire(&self, lock: usize);
+        /// The current thread has released a lock.
+        fn release(&self, lock: usize);
+    }
+
+    static SCHEDULER: OnceLock<Box<dyn Scheduler>> = OnceLock::new();
+
+    pub fn set_scheduler(scheduler: Box<dyn Scheduler>) {
+        let _ = SCHEDULER.set(scheduler);
+    }
+
+    pub(crate) struct Mutex<T> {
+        inner: std::sync::Mutex<T>,
+    }
+
+    impl<T> Mutex<T> {
+        pub(crate) const fn new(value: T) -> Mutex<T> {
+            Mutex { inner: std::sync::Mutex::new(value) }
+        }
+
+        pub(crate) fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            let lock = self as *const _ as *const () as usize;
+            if let Some(s) = SCHEDULER.get() {
+                s.acquire(lock);
+            }
+            let guard = |inner| MutexGuard { inner: Some(inner), lock };
+            match self.inner.lock() {
+                Ok(inner) => Ok(guard(inner)),
+                Err(err) => Err(std::sync::PoisonError::new(guard(err.into_inner()))),
+            }
+        }
+    }
+
+    pub(crate) struct MutexGuard<'a, T> {
+        inner: Option<std::sync::MutexGuard<'a, T>>,
+        lock: usize,
+    }
+
+    impl<T> Deref for MutexGuard<'_, T> {
+        type Target = T;
+
+        fn deref(&self) -> &T {
+            self.inner.as_ref().unwrap()
+        }
+    }
+
+    impl<T> DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            self.inner.as_mut().unwrap()
+        }
+    }
+
+    impl<T> Drop for MutexGuard<'_, T> {
+        fn drop(&mut self) {
+            self.inner = None;
+            if let Some(s) = SCHEDULER.get() {
+                s.release(self.lock);
+            }
+        }
+    }
+
+    #[allow(dead_code)]
+    pub(crate) mod atomic {
+        pub(crate) use std::sync::atomic::Ordering;
+
+        pub(crate) struct AtomicU64 {
+            inner: std::sync::atomic::AtomicU64,
+        }
+
+        fn access() {
+            if let Some(s) = super::SCHEDULER.get() {
+                s.access();
+            }
+        }
+
+        impl AtomicU64 {
+            pub(crate) const fn new(value: u64) -> AtomicU64 {
+                AtomicU64 { inner: std::sync::atomic::AtomicU64::new(value) }
+            }
+
+            pub(crate) fn load(&self, order: Ordering) -> u64 {
+                access();
+                self.inner.load(order)
+            }
+
+            pub(crate) fn store(&self, value: u64, order: Ordering) {
+                access();
+                self.inner.store(value, order)
+            }
+
+            pub(crate) fn fetch_add(&self, value: u64, order: Ordering) -> u64 {
+                access();
+                self.inner.fetch_add(value, order)
+            }
+        }
+    }
+}
-- 
2.43.0


From 0c9499be5bbc2a1fc2da3befb425cdaa6b456f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 33/36] hook: more synchronization primitives with --cfg tic_mc

---
 ticc/src/sync.rs | 99 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 75 insertions(+), 24 deletions(-)

diff --git a/ticc/src/sync.rs b/ticc/src/sync.rs
index 66de652..a5abbd8 100644
--- a/ticc/src/sync.rs
+++ b/ticc/src/sync.rs
@@ -29,6 +29,7 @@ pub mod mc {
         let _ = SCHEDULER.set(scheduler);
     }
 
+    #[derive(Debug, Default)]
     pub(crate) struct Mutex<T> {
         inner: std::sync::Mutex<T>,
     }
@@ -49,6 +50,16 @@ pub mod mc {
                 Err(err) => Err(std::sync::PoisonError::new(guard(err.into_inner()))),
             }
         }
+
+        #[allow(dead_code)]
+        pub(crate) fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.inner.get_mut()
+        }
+
+        #[allow(dead_code)]
+        pub(crate) fn into_inner(self) -> LockResult<T> {
+            self.inner.into_inner()
+        }
     }
 
     pub(crate) struct MutexGuard<'a, T> {
@@ -81,11 +92,7 @@ pub mod mc {
 
     #[allow(dead_code)]
     pub(crate) mod atomic {
-        pub(crate) use std::sync::atomic::Ordering;
-
-        pub(crate) struct AtomicU64 {
-            inner: std::sync::atomic::AtomicU64,
-        }
+        pub(crate) use std::sync::atomic::{fence, Ordering};
 
         fn access() {
             if let Some(s) = super::SCHEDULER.get() {
@@ -93,25 +100,69 @@ pub mod mc {
             }
         }
 
-        impl AtomicU64 {
-            pub(crate) const fn new(value: u64) -> AtomicU64 {
-                AtomicU64 { inner: std::sync::atomic::AtomicU64::new(value) }
-            }
-
-            pub(crate) fn load(&self, order: Ordering) -> u64 {
-                access();
-                self.inner.load(order)
-            }
-
-            pub(crate) fn store(&self, value: u64, order: Ordering) {
-                access();
-                self.inner.store(value, order)
-            }
-
-            pub(crate) fn fetch_add(&self, value: u64, order: Ordering) -> u64 {
-                access();
-                self.inner.fetch_add(value, order)
-            }
+        macro_rules! atomic {
+            ($name:ident, $ty:ty $(, $op:ident)*) => {
+                #[derive(Debug, Default)]
+                pub(crate) struct $name {
+                    inner: std::sync::atomic::$name,
+                }
+
+                impl $name {
+                    pub(crate) const fn new(value: $ty) -> $name {
+                        $name { inner: std::sync::atomic::$name::new(value) }
+                    }
+
+                    pub(crate) fn load(&self, order: Ordering) -> $ty {
+                        access();
+                        self.inner.load(order)
+                    }
+
+                    pub(crate) fn store(&self, value: $ty, order: Ordering) {
+                        access();
+                        self.inner.store(value, order)
+                    }
+
+                    pub(crate) fn compare_exchange(&self, current: $ty, new: $ty, success: Ordering, failure: Ordering) -> Result<$ty, $ty> {
+                        access();
+                        self.inner.compare_exchange(current, new, success, failure)
+                    }
+
+                    pub(crate) fn compare_exchange_weak(&self, current: $ty, new: $ty, success: Ordering, failure: Ordering) -> Result<$ty, $ty> {
+                        access();
+                        self.inner.compare_exchange(current, new, success, failure)
+                    }
+
+                    pub(crate) fn fetch_update(&self, set: Ordering, fetch: Ordering, mut f: impl FnMut($ty) -> Option<$ty>) -> Result<$ty, $ty> {
+                        let mut current = self.load(fetch);
+                        while let Some(new) = f(current) {
+                            match self.compare_exchange(current, new, set, fetch) {
+                                Ok(old) => return Ok(old),
+                                Err(other) => current = other,
+                            }
+                        }
+                        Err(current)
+                    }
+
+                    pub(crate) fn get_mut(&mut self) -> &mut $ty {
+                        self.inner.get_mut()
+                    }
+
+                    pub(crate) fn into_inner(self) -> $ty {
+                        self.inner.into_inner()
+                    }
+
+                    $(pub(crate) fn $op(&self, value: $ty, order: Ordering) -> $ty {
+                        access();
+                        self.inner.$op(value, order)
+                    })*
+                }
+            };
         }
+
+        atomic!(AtomicBool, bool, swap, fetch_and, fetch_or, fetch_xor, fetch_nand);
+        atomic!(AtomicU32, u32, swap, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min);
+        atomic!(AtomicU64, u64, swap, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min);
+        atomic!(AtomicUsize, usize, swap, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min);
+        atomic!(AtomicI64, i64, swap, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min);
     }
 }
-- 
2.43.0


From 8be1e6c3d023f3c7bde093bee571cc26b4206781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 34/36] fix: reject local bindings whose type variables escape

---
 ticc/src/compiler/typeck.rs | 46 +++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/ticc/src/compiler/typeck.rs b/ticc/src/compiler/typeck.rs
index fdd8ef3..8b4a025 100644
--- a/ticc/src/compiler/typeck.rs
+++ b/ticc/src/compiler/typeck.rs
@@ -174,6 +174,18 @@ impl Unifier {
         }
     }
 
+    fn mentions(&self, ty: TyIdx, symbol: ir::Symbol) -> bool {
+        match self.normalize(ty) {
+            Some(Ty::Named(s)) => s == symbol,
+            Some(Ty::Apply(a, b)) |
+            Some(Ty::Fn(a, b)) |
+            Some(Ty::Folded(a, b)) => {
+                self.mentions(a, symbol) || self.mentions(b, symbol)
+            }
+            _ => false,
+        }
+    }
+
     fn unify(&mut self, t1: TyIdx, t2: TyIdx) -> Result<(), UnifyError> {
         let final_1 = self.final_idx(t1);
         let final_2 = self.final_idx(t2);
@@ -499,9 +511,18 @@ impl<'a> TypeChecker<'a> {
                 } else {
                     self.allocate(Ty::Error)
                 };
+                let type_vars = expr.name().map_or(&[][..], |n| self.type_vars(n));
+                let outer = if type_vars.is_empty() {
+                    Vec::new()
+                } else {
+                    self.expr_types.values().copied().collect()
+                };
                 if let Some(expr) = expr.value() {
                     self.check_expr(expr, bound_ty);
                 }
+                if let Some(name) = expr.name() {
+                    self.check_escape(type_vars, &outer, name.token().span());
+                }
                 if let Some(expr) = expr.rest() {
                     self.check_expr(expr, expected);
                 }
@@ -623,6 +644,31 @@ impl<'a> TypeChecker<'a> {
         }
     }
 
+    fn type_vars(&self, name: node::Name<'_>) -> &'a [ir::Symbol] {
+        match self.symbols.get(&name.syntax().id()).and_then(|s| self.symbol_types.get(s)) {
+            Some(&NameTy::Inst(_, vars)) => vars,
+            _ => &[],
+        }
+    }
+
+    // type variables of a binding only exist in its definition,
+    // they cannot become a part of types around it
+    fn check_escape(&mut self, type_vars: &[ir::Symbol], outer: &[TyIdx], span: Span) {
+        for &var in type_vars {
+            if outer.iter().any(|&ty| self.unifier.mentions(ty, var)) {
+                self.diagnostics.push(RawDiagnostic {
+                    message: err_fmt!(
+                        "type variable ",
+                        ir::Type::Named(var, Vec::new()),
+                        " escapes its scope",
+                    ),
+                    severity: Severity::Error,
+                    span,
+                });
+            }
+        }
+    }
+
     fn check_operands(&mut self, expr: node::BinaryExpr<'_>, ty: TyIdx) {
         if let Some(e) = expr.lhs() {
             self.check_expr(e, ty);
-- 
2.43.0


From f832cfb5e514ca8c72cede07e828233ca766d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:48 +0000
Subject: [PATCH 35/36] fix: report an output that cannot be written instead of
 panicking or naming the input

---
 ticc/src/main.rs | 55 +++++++++++++++++++-----------------------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/ticc/src/main.rs b/ticc/src/main.rs
index c97da38..931bff5 100644
--- a/ticc/src/main.rs
+++ b/ticc/src/main.rs
@@ -92,15 +92,7 @@ fn main() {
     if opt.emit_ir {
         let ir = compilation.emit_ir();
         let output_file = opt.output.unwrap_or_else(|| path.with_extension("cir"));
-        if output_file == Path::new("-") {
-            println!("{}", ir);
-        } else {
-            std::fs::write(&output_file, ir.as_bytes()).unwrap_or_else(|e| {
-                eprintln!("error: cannot write {}", path.display());
-                eprintln!("    {}", e);
-                std::process::exit(1);
-            });
-        }
+        write_output(&output_file, ir.into_bytes());
     } else if opt.eval {
         let start = std::time::Instant::now();
         let res = run_with_stack(opt.stack, move || compilation.interpret(runner));
@@ -109,15 +101,7 @@ fn main() {
             Err(trap) => format!("error: {}", trap.message),
         };
         let output_file = opt.output.unwrap_or_else(|| "-".into());
-        if output_file == Path::new("-") {
-            println!("{}", result);
-        } else {
-            std::fs::write(&output_file, result.as_bytes()).unwrap_or_else(|e| {
-                eprintln!("error: cannot write {}", path.display());
-                eprintln!("    {}", e);
-                std::process::exit(1);
-            });
-        }
+        write_output(&output_file, result.into_bytes());
         print_time(opt.time, start);
     } else if let Some(input) = opt.run {
         let start = std::time::Instant::now();
@@ -145,25 +129,30 @@ fn main() {
             }
         };
         let output_file = opt.output.unwrap_or_else(|| "-".into());
-        if output_file == Path::new("-") {
-            let mut output = result;
-            output.push(b'\n');
-            std::io::stdout().write_all(&output).unwrap_or_else(|e| {
-                eprintln!("error: cannot write output");
-                eprintln!("    {}", e);
-                std::process::exit(1);
-            });
-        } else {
-            std::fs::write(&output_file, result).unwrap_or_else(|e| {
-                eprintln!("error: cannot write {}", path.display());
-                eprintln!("    {}", e);
-                std::process::exit(1);
-            });
-        }
+        write_output(&output_file, result);
         print_time(opt.time, start);
     }
 }
 
+/// Writes to the given file, or a line to the standard output if it is `-`.
+fn write_output(output_file: &Path, mut output: Vec<u8>) {
+    if output_file == Path::new("-") {
+        output.push(b'\n');
+        let mut stdout = std::io::stdout();
+        stdout.write_all(&output).and_then(|()| stdout.flush()).unwrap_or_else(|e| {
+            eprintln!("error: cannot write output");
+            eprintln!("    {}", e);
+            std::process::exit(1);
+        });
+    } else {
+        std::fs::write(output_file, output).unwrap_or_else(|e| {
+            eprintln!("error: cannot write {}", output_file.display());
+            eprintln!("    {}", e);
+            std::process::exit(1);
+        });
+    }
+}
+
 fn print_time(enabled: bool, start: std::time::Instant) {
     if enabled {
         eprintln!("time: {:.3}s", start.elapsed().as_secs_f64());
-- 
2.43.0


From fb41af1a19179ae2b0b33b9f433ad200a60ec959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:48 +0000
Subject: [PATCH 36/36] fix: report a stack that cannot be allocated instead of
 panicking

---
 ticc/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ticc/src/main.rs b/ticc/src/main.rs
index 931bff5..0a77749 100644
--- a/ticc/src/main.rs
+++ b/ticc/src/main.rs
@@ -165,7 +165,11 @@ fn run_with_stack<T: Send + 'static>(stack: Option<usize>, f: impl (FnOnce() ->
             std::thread::Builder::new()
                 .stack_size(s.saturating_mul(1024 * 1024))
                 .spawn(f)
-                .expect("failed to spawn worker thread")
+                .unwrap_or_else(|e| {
+                    eprintln!("error: cannot allocate a stack of {s} megabytes");
+                    eprintln!("    {}", e);
+                    std::process::exit(1);
+                })
                 .join()
                 .unwrap()
         }
-- 
2.43.0

