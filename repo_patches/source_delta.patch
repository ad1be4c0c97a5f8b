From 832d7d37789db42d64626742dbeb6633df26e1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 01/10] fix: Owned::leak no longer runs the destructor of the
 leaked value

The pattern `let Owned(mut ptr, _) = self` copies the pointer out and leaves
`self` to be dropped, so the returned reference pointed at a destroyed value.
---
 varlen/src/owned.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index 77576f3..a2ddef5 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -162,7 +162,8 @@ impl<'storage, T: VarLen> Owned<'storage, T> {
     /// # }
     /// ```
     pub fn leak(self) -> Pin<&'storage mut T> {
-        let Owned(mut ptr, _) = self;
+        let mut ptr = self.0;
+        core::mem::forget(self);
         unsafe { Pin::new_unchecked(ptr.as_mut()) }
     }
 
-- 
2.43.0


From 9b0ad109b5c840b7f1ff54d997b2322efefa2672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 02/10] fix: moving an Owned into new storage copies bytes, not
 multiples of T

layout.size() is in bytes; copying that many T overran source and destination.
---
 varlen/src/owned.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index a2ddef5..3ba8a84 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -218,7 +218,11 @@ unsafe impl<T: VarLen> Initializer<T> for Owned<'_, T> {
         //  * Owned has unique access to its pointer
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
-        core::ptr::copy_nonoverlapping(self.0.as_ptr(), dst.as_ptr(), layout.size());
+        core::ptr::copy_nonoverlapping(
+            self.0.as_ptr().cast::<u8>(),
+            dst.as_ptr().cast::<u8>(),
+            layout.size(),
+        );
         core::mem::forget(self);
     }
 
-- 
2.43.0


From df34c733b7f3f425bd476562383691d8a92ab0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 03/10] fix: VBox::new reports allocation failure instead of
 writing through null

---
 varlen/src/vbox.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/varlen/src/vbox.rs b/varlen/src/vbox.rs
index e717e1c..c5d305b 100644
--- a/varlen/src/vbox.rs
+++ b/varlen/src/vbox.rs
@@ -58,10 +58,10 @@ impl<T: VarLen> VBox<T> {
         let alloc_layout = alloc::Layout::from_size_align(layout.size(), T::ALIGN)
             .unwrap_or_else(|_| allocation_overflow());
         unsafe {
-            let p = alloc::alloc(alloc_layout) as *mut T;
+            let mut p = NonNull::new(alloc::alloc(alloc_layout) as *mut T)
+                .unwrap_or_else(|| alloc::handle_alloc_error(alloc_layout));
             let layout_size = layout.size();
-            init.initialize(NonNull::new_unchecked(p), layout);
-            let mut p = NonNull::new_unchecked(p);
+            init.initialize(p, layout);
             // TODO(reinerp): Compare directly on Layout type? Or too much generated code?
             debug_assert_eq!(p.as_mut().calculate_layout().size(), layout_size);
             VBox(p)
-- 
2.43.0


From d052432d7f8384118d7136849e48cfa5f1e3f05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 04/10] fix: VBox makes no zero-size allocations

Passing a zero-size layout to the global allocator is undefined behaviour.
---
 varlen/src/vbox.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/varlen/src/vbox.rs b/varlen/src/vbox.rs
index c5d305b..233f219 100644
--- a/varlen/src/vbox.rs
+++ b/varlen/src/vbox.rs
@@ -40,6 +40,29 @@ fn allocation_overflow() -> ! {
     panic!("Allocation size overflow")
 }
 
+/// Allocates storage for a box. Zero-size values have no storage, just an aligned address.
+#[inline]
+fn allocate(layout: alloc::Layout) -> NonNull<u8> {
+    if layout.size() == 0 {
+        unsafe { NonNull::new_unchecked(layout.align() as *mut u8) }
+    } else {
+        NonNull::new(unsafe { alloc::alloc(layout) })
+            .unwrap_or_else(|| alloc::handle_alloc_error(layout))
+    }
+}
+
+/// Frees storage obtained by [`allocate`].
+///
+/// # Safety
+///
+/// `ptr` was returned by `allocate(layout)`, and has not been freed since.
+#[inline]
+unsafe fn deallocate(ptr: *mut u8, layout: alloc::Layout) {
+    if layout.size() != 0 {
+        alloc::dealloc(ptr, layout);
+    }
+}
+
 #[allow(rustdoc::missing_doc_code_examples)]
 impl<T: VarLen> VBox<T> {
     /// Allocates memory which is right-sized for this particular instance.
@@ -58,8 +81,7 @@ impl<T: VarLen> VBox<T> {
         let alloc_layout = alloc::Layout::from_size_align(layout.size(), T::ALIGN)
             .unwrap_or_else(|_| allocation_overflow());
         unsafe {
-            let mut p = NonNull::new(alloc::alloc(alloc_layout) as *mut T)
-                .unwrap_or_else(|| alloc::handle_alloc_error(alloc_layout));
+            let mut p = allocate(alloc_layout).cast::<T>();
             let layout_size = layout.size();
             init.initialize(p, layout);
             // TODO(reinerp): Compare directly on Layout type? Or too much generated code?
@@ -150,7 +172,7 @@ impl<T: VarLen> Drop for VBox<T> {
             let layout = T::calculate_layout(&*self);
             let alloc_layout = alloc::Layout::from_size_align_unchecked(layout.size(), T::ALIGN);
             T::vdrop(self.as_mut(), layout);
-            alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);
+            deallocate(self.0.as_ptr() as *mut u8, alloc_layout);
         }
     }
 }
@@ -188,7 +210,7 @@ unsafe impl<T: VarLen> Initializer<T> for VBox<T> {
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
         core::ptr::copy_nonoverlapping(ptr, dst.as_ptr().cast::<u8>(), size);
-        alloc::dealloc(ptr, layout);
+        deallocate(ptr, layout);
         core::mem::forget(self);
     }
 
-- 
2.43.0


From 882e6331ffd5e56d63baf161d14a19d54247024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 05/10] fix: take_elems clears the offsets of the elements it
 takes

The occupied length was reset before it was used to clear the bitmask, so stale
offsets became valid again once the sequence was refilled.
---
 varlen/src/seq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 17aa13c..ee2c3a8 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -907,11 +907,11 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
             len_elements: self.len_elements,
             marker: core::marker::PhantomData,
         };
-        self.len_elements = 0;
-        self.occupied_offsets = 0;
         unsafe {
             Idx::clear_bitmasks(self.ptr, self.capacity_offsets, self.occupied_offsets);
         }
+        self.len_elements = 0;
+        self.occupied_offsets = 0;
         r
     }
 
-- 
2.43.0


From 3f2716a2f68e0cbbdda89db40e8e0b1e998b13b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 06/10] fix: an offset becomes valid only once its element is
 initialized

If the initializer panicked, the offset stayed marked and was taken for valid
when later elements covered it.
---
 varlen/src/seq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index ee2c3a8..5efd3b8 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -687,8 +687,8 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
         }
         let elem_offset = self.occupied_offsets;
         unsafe {
-            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
             init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);
+            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
         }
         self.occupied_offsets = occupied_plus;
         self.len_elements += 1;
-- 
2.43.0


From 07c44829b58b2f7d5be0291069e6e7d1bd9bfb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 07/10] fix: appending a zero-size element marks no offset

A zero-size element needs no storage, so the bit of its offset may lie beyond the
bitmask or there may be no storage at all.
---
 varlen/src/seq.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 5efd3b8..7ba22cd 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -688,7 +688,10 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
         let elem_offset = self.occupied_offsets;
         unsafe {
             init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);
-            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
+            // Zero-size elements occupy no offset. There may not even be a bitmask.
+            if size_offsets > 0 {
+                Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
+            }
         }
         self.occupied_offsets = occupied_plus;
         self.len_elements += 1;
-- 
2.43.0


From 59d8e5d91a6606091e65e041d896a34ac2ef82e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 08/10] fix: dropping a sequence without storage drops its
 zero-size elements

---
 varlen/src/seq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 7ba22cd..394f1ab 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -1016,10 +1016,10 @@ impl<T: VarLen> Seq<T, CheckedIndexing> {
 
 impl<T: VarLen, Idx: Indexing> Drop for Seq<T, Idx> {
     fn drop(&mut self) {
+        drop(self.take_elems());
         if self.capacity_offsets == 0 {
             return;
         }
-        drop(self.take_elems());
         unsafe {
             alloc::dealloc(self.ptr.as_ptr() as *mut u8, self.layout());
         }
-- 
2.43.0


From 644a0d5cc3fbf24a75978ebfeab10df88bbbddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 09/10] fix: zero-size elements of a sequence without storage
 are aligned to T::ALIGN

---
 varlen/src/seq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 394f1ab..f2227f5 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -582,7 +582,8 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
     #[inline]
     pub fn new() -> Self {
         Seq {
-            ptr: NonNull::dangling(),
+            // Aligned for T::ALIGN, which can exceed align_of::<T>(): zero-size elements live here.
+            ptr: unsafe { NonNull::new_unchecked(T::ALIGN as *mut T) },
             len_elements: 0,
             occupied_offsets: 0,
             capacity_offsets: 0,
-- 
2.43.0


From 3d148256417a3e54df1c3dbe29f39bd10334873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 10/10] fix: try_set_layout_controllers updates all fields
 before dropping old values

A panic while dropping a replaced value left later fields unchanged, so that the
array lengths no longer agreed with the storage.
---
 varlen_macro/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 2c7b9e5..147d9c7 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -473,9 +473,12 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                     )*;
                 if valid {
                     let self_mut = unsafe { self.get_unchecked_mut() };
-                    #(
-                        self_mut.#lengths_ident = layout_controllers.#lengths_ident;
-                    )*
+                    // Replace all fields before dropping any old value, in case its drop panics.
+                    let _old = (
+                        #(
+                            ::core::mem::replace(&mut self_mut.#lengths_ident, layout_controllers.#lengths_ident),
+                        )*
+                    );
                     ::core::result::Result::Ok(())
                 } else {
                     ::core::result::Result::Err(::varlen::macro_support::LayoutMismatch)
-- 
2.43.0

