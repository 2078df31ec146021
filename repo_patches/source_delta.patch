From a9385c953a6bb94a56f8c723695ec27da4636aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 01/13] fix: Seq::take_elems clears the start bits of the
 elements it takes

occupied_offsets was reset before clear_bitmasks used it, so nothing was
cleared and offsets of elements taken out earlier stayed valid once new
elements covered them.
---
 varlen/src/seq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 17aa13c..ee2c3a8 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -907,11 +907,11 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
             len_elements: self.len_elements,
             marker: core::marker::PhantomData,
         };
-        self.len_elements = 0;
-        self.occupied_offsets = 0;
         unsafe {
             Idx::clear_bitmasks(self.ptr, self.capacity_offsets, self.occupied_offsets);
         }
+        self.len_elements = 0;
+        self.occupied_offsets = 0;
         r
     }
 
-- 
2.43.0


From a47a61a02addf7c679a77562597aee5c2aa9de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 02/13] fix: Owned::leak does not destroy the object it returns

Destructuring copied the fields out of self, which was then dropped.
---
 varlen/src/owned.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index 77576f3..a2ddef5 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -162,7 +162,8 @@ impl<'storage, T: VarLen> Owned<'storage, T> {
     /// # }
     /// ```
     pub fn leak(self) -> Pin<&'storage mut T> {
-        let Owned(mut ptr, _) = self;
+        let mut ptr = self.0;
+        core::mem::forget(self);
         unsafe { Pin::new_unchecked(ptr.as_mut()) }
     }
 
-- 
2.43.0


From 913f499878d6581e9c5de0f5d755cf5d6da1c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 03/13] fix: moving an Owned copies layout.size() bytes

The copy was typed, so it copied layout.size() headers: nothing for tuples,
past the end of both objects for other types.
---
 varlen/src/owned.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index a2ddef5..3ba8a84 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -218,7 +218,11 @@ unsafe impl<T: VarLen> Initializer<T> for Owned<'_, T> {
         //  * Owned has unique access to its pointer
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
-        core::ptr::copy_nonoverlapping(self.0.as_ptr(), dst.as_ptr(), layout.size());
+        core::ptr::copy_nonoverlapping(
+            self.0.as_ptr().cast::<u8>(),
+            dst.as_ptr().cast::<u8>(),
+            layout.size(),
+        );
         core::mem::forget(self);
     }
 
-- 
2.43.0


From 052c9e10dfb35b96547498e7f1e3f6e5bd06c9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 04/13] fix: Seq of zero-size elements destroys them and marks
 no start bit

Such a sequence never allocates: dropping it skipped the elements'
destructors, and pushing with checked indexing wrote a start bit through the
dangling storage pointer.
---
 varlen/src/seq.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index ee2c3a8..41bc705 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -687,7 +687,9 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
         }
         let elem_offset = self.occupied_offsets;
         unsafe {
-            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
+            if size_offsets > 0 {
+                Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
+            }
             init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);
         }
         self.occupied_offsets = occupied_plus;
@@ -1013,10 +1015,10 @@ impl<T: VarLen> Seq<T, CheckedIndexing> {
 
 impl<T: VarLen, Idx: Indexing> Drop for Seq<T, Idx> {
     fn drop(&mut self) {
+        drop(self.take_elems());
         if self.capacity_offsets == 0 {
             return;
         }
-        drop(self.take_elems());
         unsafe {
             alloc::dealloc(self.ptr.as_ptr() as *mut u8, self.layout());
         }
-- 
2.43.0


From ed277f270a436aa2a170cf6c95aac8cdbf60009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 05/13] fix: the storage of an empty Seq is aligned to T::ALIGN

NonNull::dangling() is only aligned to align_of::<T>(), which is smaller for
types whose alignment comes from their tail.
---
 varlen/src/seq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 41bc705..c090f22 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -582,7 +582,8 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
     #[inline]
     pub fn new() -> Self {
         Seq {
-            ptr: NonNull::dangling(),
+            // Dangling, but aligned to T::ALIGN.
+            ptr: unsafe { NonNull::new_unchecked(core::ptr::null_mut::<u8>().wrapping_add(T::ALIGN).cast()) },
             len_elements: 0,
             occupied_offsets: 0,
             capacity_offsets: 0,
-- 
2.43.0


From 0ba790f4e31626281e12f7bce6adc04bcc9cad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 06/13] fix: Seq::push marks the start bit only once the
 element is built

A panicking initializer left its start bit set.
---
 varlen/src/seq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index c090f22..758b8fa 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -688,10 +688,10 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
         }
         let elem_offset = self.occupied_offsets;
         unsafe {
+            init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);
             if size_offsets > 0 {
                 Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
             }
-            init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);
         }
         self.occupied_offsets = occupied_plus;
         self.len_elements += 1;
-- 
2.43.0


From 4e8938d450b5fe3a6c67b09eb2463618987ab6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 07/13] fix: VBox::new reports a failed allocation

It initialized the object through the null pointer.
---
 varlen/src/vbox.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/varlen/src/vbox.rs b/varlen/src/vbox.rs
index e717e1c..4bcdec4 100644
--- a/varlen/src/vbox.rs
+++ b/varlen/src/vbox.rs
@@ -59,6 +59,9 @@ impl<T: VarLen> VBox<T> {
             .unwrap_or_else(|_| allocation_overflow());
         unsafe {
             let p = alloc::alloc(alloc_layout) as *mut T;
+            if p.is_null() {
+                alloc::handle_alloc_error(alloc_layout);
+            }
             let layout_size = layout.size();
             init.initialize(NonNull::new_unchecked(p), layout);
             let mut p = NonNull::new_unchecked(p);
-- 
2.43.0


From f129088c0201fe9f7d398c1bb03f70c808289aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 08/13] fix: VBox of a zero-size object does not allocate

Requesting or releasing zero bytes from the global allocator is undefined
behaviour.
---
 varlen/src/vbox.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/varlen/src/vbox.rs b/varlen/src/vbox.rs
index 4bcdec4..81c5062 100644
--- a/varlen/src/vbox.rs
+++ b/varlen/src/vbox.rs
@@ -58,7 +58,12 @@ impl<T: VarLen> VBox<T> {
         let alloc_layout = alloc::Layout::from_size_align(layout.size(), T::ALIGN)
             .unwrap_or_else(|_| allocation_overflow());
         unsafe {
-            let p = alloc::alloc(alloc_layout) as *mut T;
+            let p = if alloc_layout.size() == 0 {
+                // Zero-size objects have no allocation.
+                core::ptr::null_mut::<u8>().wrapping_add(T::ALIGN) as *mut T
+            } else {
+                alloc::alloc(alloc_layout) as *mut T
+            };
             if p.is_null() {
                 alloc::handle_alloc_error(alloc_layout);
             }
@@ -153,7 +158,9 @@ impl<T: VarLen> Drop for VBox<T> {
             let layout = T::calculate_layout(&*self);
             let alloc_layout = alloc::Layout::from_size_align_unchecked(layout.size(), T::ALIGN);
             T::vdrop(self.as_mut(), layout);
-            alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);
+            if alloc_layout.size() != 0 {
+                alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);
+            }
         }
     }
 }
@@ -191,7 +198,9 @@ unsafe impl<T: VarLen> Initializer<T> for VBox<T> {
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
         core::ptr::copy_nonoverlapping(ptr, dst.as_ptr().cast::<u8>(), size);
-        alloc::dealloc(ptr, layout);
+        if size != 0 {
+            alloc::dealloc(ptr, layout);
+        }
         core::mem::forget(self);
     }
 
-- 
2.43.0


From eea8cbbb4d6c8cdb9505e675642776f28ad521b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:47 +0000
Subject: [PATCH 09/13] fix: try_set_layout_controllers replaces all
 controllers before dropping old ones

---
 varlen_macro/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 2c7b9e5..c6e2d58 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -473,9 +473,16 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                     )*;
                 if valid {
                     let self_mut = unsafe { self.get_unchecked_mut() };
-                    #(
-                        self_mut.#lengths_ident = layout_controllers.#lengths_ident;
-                    )*
+                    // Replace all controllers before dropping any old one: a panicking drop must not
+                    // leave a mix of old and new controllers.
+                    let _old = (
+                        #(
+                            ::core::mem::replace(
+                                &mut self_mut.#lengths_ident,
+                                layout_controllers.#lengths_ident,
+                            ),
+                        )*
+                    );
                     ::core::result::Result::Ok(())
                 } else {
                     ::core::result::Result::Err(::varlen::macro_support::LayoutMismatch)
-- 
2.43.0


From 16b5c3728849a35f938fb839800619cf61c337a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:51 +0000
Subject: [PATCH 10/13] fix: no safe impl of Unpin for a type with a tail

---
 varlen/src/macro_support.rs |  6 ++++++
 varlen/src/newtype.rs       |  5 +++++
 varlen_macro/src/lib.rs     | 18 ++++++++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/varlen/src/macro_support.rs b/varlen/src/macro_support.rs
index ab7cafa..48dab32 100644
--- a/varlen/src/macro_support.rs
+++ b/varlen/src/macro_support.rs
@@ -8,6 +8,12 @@ use core::ptr::NonNull;
 use crate::array_init::ArrayInitializer;
 use crate::{Initializer, Layout, VarLen};
 
+/// `Unpin` if and only if `T` is. The lifetime makes bounds on this type non-trivial, so that generated
+/// code can state them whether or not they hold.
+pub struct UnpinIf<'a, T>(core::marker::PhantomData<(&'a (), T)>);
+
+impl<T: Unpin> Unpin for UnpinIf<'_, T> {}
+
 // Array fields
 
 #[inline(always)]
diff --git a/varlen/src/newtype.rs b/varlen/src/newtype.rs
index f380b2f..f5f0a10 100644
--- a/varlen/src/newtype.rs
+++ b/varlen/src/newtype.rs
@@ -188,6 +188,11 @@ macro_rules! define_varlen_newtype {
         $(#[$initattrs])*
         $initvis struct $init < InnerInit >($initfieldvis InnerInit);
 
+        // Rules out a user's own (safe) `impl Unpin`, with which headers could be swapped without
+        // their tails.
+        impl<'__varlen, $( $($($generic_params)*,)* )*> ::core::marker::Unpin for $outer $(< $($($generics_apply)*),* >)*
+        where $crate::macro_support::UnpinIf<'__varlen, $inner>: ::core::marker::Unpin {}
+
         unsafe impl $(< $($($generic_params)*),* >)* $crate::VarLen for $outer $(< $($($generics_apply)*),* >)* {
             type Layout = <$inner as $crate::VarLen>::Layout;
             #[inline(always)]
diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index c6e2d58..41aee71 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -251,6 +251,22 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
     let (layout_generics_structdef, layout_generics_impl, layout_generics_apply, layout_generics_where) 
         = parse_generics(&d.generics, Some(varlen_layout_ty_refs));
 
+    // A struct with a tail is not `Unpin`. This impl also rules out a user's own (safe) `impl Unpin`,
+    // with which headers could be swapped without their tails.
+    let has_tail = !varlen_ident.is_empty();
+    let unpin_impl = has_tail.then(|| {
+        let predicates = d.generics.where_clause.iter().flat_map(|w| &w.predicates);
+        quote! {
+            impl<'__varlen, #(#generics_impl),*> ::core::marker::Unpin
+                for #tyname<#(#generics_apply),*>
+            where
+                #(#predicates,)*
+                ::varlen::macro_support::UnpinIf<'__varlen, ::core::marker::PhantomPinned>: ::core::marker::Unpin,
+            {
+            }
+        }
+    });
+
     // TODO(reinerp): This is potentially quadratic syntax size. Create type synonym instead,
     // to keep it linear.
     let len_fn_arg = quote! {
@@ -341,6 +357,8 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             }
         }
 
+        #unpin_impl
+
         unsafe impl<#(#generics_impl),*> ::varlen::VarLen for #tyname<#(#generics_apply),*> #generics_where {
             type Layout = #mod_name::VarLenLayout<#(#layout_generics_apply),*>;
 
-- 
2.43.0


From 9a1a252dcd6938d0e82327019dcaba462954392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 11/13] fix: layout controllers must be Sync, so that no length
 changes through a shared reference

---
 varlen_macro/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 41aee71..b0d45ae 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -313,6 +313,15 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                 )*
             }
 
+            // Layout controllers must not change through a shared reference: `Sync` excludes types
+            // such as `Cell`, which a `const` length expression could read.
+            const _: () = {
+                const fn assert_sync<T: ::core::marker::Sync>() {}
+                #(
+                    assert_sync::<#lengths_ty>();
+                )*
+            };
+
             #tyvis_inner struct Init< #(#varlen_init_ty_param,)* > {
                 #(
                     #all_attr
-- 
2.43.0


From 6919544e7642352c331db60609d8095e89f0886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:25 +0000
Subject: [PATCH 12/13] fix: define_varlen_newtype took the layout from an
 inherent method of the inner type

`self.0.calculate_layout()` resolves to an inherent method of that name if the inner type has one,
so safe code could make the wrapper lie about its size. It also needed VarLen in scope at the call site.
Name the trait's method instead.
---
 varlen/src/newtype.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/varlen/src/newtype.rs b/varlen/src/newtype.rs
index f5f0a10..82ac3d2 100644
--- a/varlen/src/newtype.rs
+++ b/varlen/src/newtype.rs
@@ -197,7 +197,7 @@ macro_rules! define_varlen_newtype {
             type Layout = <$inner as $crate::VarLen>::Layout;
             #[inline(always)]
             fn calculate_layout(&self) -> Self::Layout {
-                self.0.calculate_layout()
+                <$inner as $crate::VarLen>::calculate_layout(&self.0)
             }
 
             const ALIGN: usize = <$inner as $crate::VarLen>::ALIGN;
-- 
2.43.0


From c5db1e8e342ecd67a3515bb2b348fca17a901ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:25 +0000
Subject: [PATCH 13/13] fix: impl_initializer_as_newtype called an inherent
 method of the wrapped initializer

`self.0.initialize(..)` resolves to an inherent method of that name if the wrapped type has one, so
safe code could leave an object uninitialized. Both newtype macros also needed Initializer in scope at
the call site. Name the trait's method instead.
---
 varlen/src/newtype.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/varlen/src/newtype.rs b/varlen/src/newtype.rs
index 82ac3d2..fe6d316 100644
--- a/varlen/src/newtype.rs
+++ b/varlen/src/newtype.rs
@@ -220,7 +220,7 @@ macro_rules! define_varlen_newtype {
 
             #[inline(always)]
             unsafe fn initialize(self, dst: ::core::ptr::NonNull<$outer $(< $($($generics_apply)*),* >)* >, layout: <$inner as $crate::VarLen>::Layout) {
-                self.0.initialize(dst.cast::<$inner>(), layout);
+                <InnerInit as $crate::Initializer<$inner>>::initialize(self.0, dst.cast::<$inner>(), layout);
             }
         }
 
@@ -313,7 +313,7 @@ macro_rules! impl_initializer_as_newtype {
                 // Safety:
                 // * validity of dst is ensured by caller
                 // * layout matches what we called layout on above, on `self.0`
-                self.0.initialize(dst, layout);
+                $crate::Initializer::<$t>::initialize(self.0, dst, layout);
             }
         }
     }
-- 
2.43.0

