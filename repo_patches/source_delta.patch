From 4299c77ec1d8a8ed098382c6e6a205a299692119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 01/16] fix: keep the element stack in step after a visitor
 ignores an error

If a visitor's `element` ignored an error raised at the end of a nested
element, the stack was left one entry too deep. The skip that follows then
tripped a debug assertion, or produced a wrong error stack in release builds.
---
 static-xml/src/de/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 35aae66..101686f 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -472,11 +472,14 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
             self.depth,
             depth
         );
+
+        // The visitor may have ignored an error returned while examining an
+        // end element, so trim the stack before the first call to `next` also.
+        self.stack.truncate(self.depth);
         while self.depth > depth {
             self.next()?;
             self.stack.truncate(self.depth);
         }
-        self.stack.truncate(self.depth);
         Ok(())
     }
 
-- 
2.43.0


From 00aa1173ed1bc34f2bcef892c32fdb1967361f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 02/16] fix: keep whitespace-only text when reading an element
 as a string

xml-rs reports a run of text consisting only of whitespace as a separate
event, which was dropped everywhere. So <a> </a> read as "", and a string
such as " " didn't survive being written and read back.
---
 static-xml/src/de/mod.rs | 62 ++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 101686f..0483ca7 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -315,27 +315,30 @@ impl<R: std::io::Read> Reader<R> {
                 ))
             }
         }
-        match self.next()? {
-            (
-                Event::StartElement {
-                    namespace,
-                    attributes,
-                },
-                _pos,
-            ) => {
-                return Ok(ElementReader {
-                    reader: self,
-                    attributes,
-                    namespace,
-                    stack_pos: 0,
-                });
-            }
-            (o, pos) => {
-                return Err(Error::msg(
-                    &[],
-                    pos,
-                    format!("expected StartElement, got {:#?}", o),
-                ))
+        loop {
+            match self.next()? {
+                (Event::Whitespace(_), _pos) => continue,
+                (
+                    Event::StartElement {
+                        namespace,
+                        attributes,
+                    },
+                    _pos,
+                ) => {
+                    return Ok(ElementReader {
+                        reader: self,
+                        attributes,
+                        namespace,
+                        stack_pos: 0,
+                    });
+                }
+                (o, pos) => {
+                    return Err(Error::msg(
+                        &[],
+                        pos,
+                        format!("expected StartElement, got {:#?}", o),
+                    ))
+                }
             }
         }
     }
@@ -381,9 +384,14 @@ enum Event {
     /// The end of an element.
     EndElement { name: xml::name::OwnedName },
 
-    /// Characters, whether from `XmlEvent::CData`, `XmlEvent::Characters`, or
-    /// (possibly?) `XmlEvent::Whitespace`.
+    /// Characters, whether from `XmlEvent::CData` or `XmlEvent::Characters`.
     Characters(String),
+
+    /// Characters which are entirely whitespace, from `XmlEvent::Whitespace`.
+    ///
+    /// These are significant only within an element which is being read as a
+    /// string; elsewhere they're assumed to be formatting.
+    Whitespace(String),
 }
 
 /// Internal type-erased version of [`Reader`] for use by [`ElementReader`].
@@ -455,8 +463,11 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
                     let pos = self.inner.position();
                     return Ok((Event::Characters(str), pos));
                 }
+                Ok(XmlEvent::Whitespace(str)) => {
+                    let pos = self.inner.position();
+                    return Ok((Event::Whitespace(str), pos));
+                }
                 Ok(XmlEvent::Comment(_))
-                | Ok(XmlEvent::Whitespace(_))
                 | Ok(XmlEvent::ProcessingInstruction { .. })
                 | Ok(XmlEvent::StartDocument { .. })
                 | Ok(XmlEvent::EndDocument) => continue,
@@ -601,6 +612,7 @@ impl<'a> ElementReader<'a> {
                         Error::deserializer(stack, pos, e)
                     })?;
                 }
+                (Event::Whitespace(_), _pos) => {}
             }
         }
     }
@@ -628,7 +640,7 @@ impl<'a> ElementReader<'a> {
                     )));
                 }
                 (Event::EndElement { .. }, _pos) => break,
-                (Event::Characters(str), _pos) => {
+                (Event::Characters(str), _pos) | (Event::Whitespace(str), _pos) => {
                     if out.is_empty() {
                         out = str;
                     } else {
-- 
2.43.0


From 852fa5ae5ef89e159ddc2eb5dac96e7dcdacc0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 03/16] fix: accept processing instructions before the root
 element

Without an XML declaration, xml-rs produces leading processing instructions
ahead of its synthesized StartDocument, and such documents were rejected.
---
 static-xml/src/de/mod.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 0483ca7..e7445e5 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -305,14 +305,19 @@ impl<R: std::io::Read> Reader<R> {
     ///
     /// Call only once.
     pub fn root(&mut self) -> Result<ElementReader<'_>, Error> {
-        match self.inner.next().map_err(|e| Error::xml(&[], e))? {
-            XmlEvent::StartDocument { .. } => {}
-            o => {
-                return Err(Error::msg(
-                    &[],
-                    self.inner.position(),
-                    format!("expected StartDocument, got {:#?}", o),
-                ))
+        // When there's no XML declaration, xml-rs produces any leading
+        // processing instructions before its `StartDocument`.
+        loop {
+            match self.inner.next().map_err(|e| Error::xml(&[], e))? {
+                XmlEvent::StartDocument { .. } => break,
+                XmlEvent::ProcessingInstruction { .. } | XmlEvent::Comment { .. } => {}
+                o => {
+                    return Err(Error::msg(
+                        &[],
+                        self.inner.position(),
+                        format!("expected StartDocument, got {:#?}", o),
+                    ))
+                }
             }
         }
         loop {
-- 
2.43.0


From 4f1b9d617219ec1e808756a02d150120a0e58db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 04/16] fix: pass unknown elements on from a flattened enum
 which has its value

Once a derived enum had been read, it consumed elements which match none of its
variants, rather than passing them to later flattened fields as documented.
---
 static-xml-derive/src/deserialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 56b864e..e6ccfed 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -424,7 +424,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                             &ELEMENTS[expected_i],
                         ));
                     }
-                    return Ok(None);
+                    return Ok(Some(child));
                 }
                 self.out.write(match element_i {
                     #(#uninitialized_match_arms,)*
-- 
2.43.0


From 0383c6b8b8c6b78725e124d3a723eb1e74c78f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 05/16] fix: support deriving Deserialize for enums with
 skipped variants

The generated match didn't cover skipped variants, so it failed to compile.
---
 static-xml-derive/src/deserialize.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index e6ccfed..c703073 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -341,7 +341,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         .iter()
         .map(|v| v.name.quote_expanded())
         .collect();
-    let initialized_match_arms: Vec<TokenStream> = enum_
+    let mut initialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
         .enumerate()
@@ -370,6 +370,11 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             }
         })
         .collect();
+    if enum_.has_skipped_variants {
+        initialized_match_arms.push(quote! {
+            _ => unreachable!("skipped variants are never deserialized")
+        });
+    }
     let uninitialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
-- 
2.43.0


From d535e9a64185c2954f108f5692eabcc2c1f47dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 06/16] fix: return an error on serializing a skipped enum
 variant

As documented. It silently wrote an element with nothing in it, which can't be
read back.
---
 static-xml-derive/src/serialize.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 3fd1479..3b35283 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -129,7 +129,9 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
     }).collect();
     if enum_.has_skipped_variants {
         match_arms.push(quote! {
-            _ => {}
+            _ => return Err(::static_xml::ser::Error(
+                concat!("can't serialize skipped variant of ", stringify!(#ident)).to_owned(),
+            ))
         });
     }
     let write_namespaces = write_namespaces(&enum_.attr);
-- 
2.43.0


From 847be75cf378d4710b16e18f4afe31180a7cc587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 07/16] fix: flush the writer at the end of Serializer::to

When given e.g. a std::io::BufWriter, the final part of the document was
written only on drop, where errors are ignored. So to could return Ok for a
document which was never completely written.
---
 static-xml/src/ser/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 16bddd7..170a7c4 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -692,7 +692,7 @@ impl<'a> Serializer<'a> {
 
     /// Serializes to any `Write` impl.
     pub fn to<W: Write>(self, writer: W) -> Result<(), Error> {
-        let mut writer = WrappedWriter {
+        let mut wrapped = WrappedWriter {
             inner: xml::writer::EventWriter::new_with_config(
                 writer,
                 xml::writer::EmitterConfig {
@@ -708,12 +708,20 @@ impl<'a> Serializer<'a> {
             namespaces: NamespacesBuilder::default(),
             attributes: Vec::default(),
             seen_attributes: HashMap::default(),
-            writer: &mut writer,
+            writer: &mut wrapped,
         }));
         self.element.write_attributes(&mut builder)?;
         let mut writer = builder.start()?;
         self.element.write_children(&mut writer)?;
-        writer.finish()
+        writer.finish()?;
+
+        // If the caller supplied a buffering writer, an error writing out the
+        // buffer's final contents would otherwise be lost when it's dropped.
+        wrapped
+            .inner
+            .inner_mut()
+            .flush()
+            .map_err(|e| Error(e.to_string()))
     }
 
     /// Serializes to a `String`.
-- 
2.43.0


From b2923c1a5da3819dd49ad5e905fed8fecfc870c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:01 +0000
Subject: [PATCH 08/16] fix: don't leak already-read fields when
 deserialization fails

Derived visitors write each field into uninitialized memory as it's read, and
nothing dropped those fields if an error (or panic) then ended the operation.
Have a guard own each field until the whole value is complete.
---
 static-xml-derive/src/deserialize.rs | 76 +++++++++++++++++++++++-----
 static-xml/src/de/mod.rs             | 60 +++++++++++++++++++++-
 2 files changed, 122 insertions(+), 14 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index c703073..0e28db4 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -45,7 +45,7 @@ fn visitor_field_definitions(struct_: &ElementStruct) -> Vec<TokenStream> {
                 }),
                 ElementFieldMode::Element { .. } | ElementFieldMode::Attribute { .. } => {
                     Some(quote_spanned! {span=>
-                        #field_present: bool
+                        #field_present: ::static_xml::de::FieldGuard<#ty>
                     })
                 }
             }
@@ -59,17 +59,17 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
         .iter()
         .map(|field| {
             let span = field.inner.span();
+            let fident = field.ident;
             match field.mode {
                 ElementFieldMode::Flatten => {
                     let field_visitor = format_ident!("{}_visitor", field.ident);
-                    let fident = field.ident;
                     let ty = &field.inner.ty;
                     quote_spanned! {span=>
                         #field_visitor: <#ty as ::static_xml::de::RawDeserialize>::Visitor::new(
                             // SAFETY: out points to valid, uninitialized memory.
                             unsafe {
                                 &mut *(
-                                    ::std::ptr::addr_of_mut!((*out.as_mut_ptr()).#fident)
+                                    ::std::ptr::addr_of_mut!((*out).#fident)
                                     as *mut ::std::mem::MaybeUninit<#ty>
                                 )
                             }
@@ -79,7 +79,12 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
                 _ => {
                     let field_present = format_ident!("{}_present", field.ident);
                     quote_spanned! {span=>
-                        #field_present: false
+                        // SAFETY: out points to valid, uninitialized memory.
+                        #field_present: unsafe {
+                            ::static_xml::de::FieldGuard::new(
+                                ::std::ptr::addr_of_mut!((*out).#fident)
+                            )
+                        }
                     }
                 }
             }
@@ -107,9 +112,10 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     }
                 };
                 quote_spanned! {span=>
-                    if !self.#field_present {
+                    if !self.#field_present.get() {
                         // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                         unsafe { ::std::ptr::write(#field_mut as *mut #ty, #value) };
+                        unsafe { self.#field_present.set() };
                     }
                 }
             }
@@ -123,14 +129,17 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     }
                 };
                 quote_spanned! {span=>
-                    if !self.#field_present {
+                    if !self.#field_present.get() {
                         // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                         unsafe { ::std::ptr::write(#field_mut /*as *mut #ty*/, #value) };
+                        unsafe { self.#field_present.set() };
                     }
                 }
             }
             ElementFieldMode::Flatten => {
+                let field_present = format_ident!("{}_present", field.ident);
                 let field_visitor = format_ident!("{}_visitor", field.ident);
+                let field_mut = field_mut(field);
                 let d = if let Some(d) = default {
                     quote! { Some(#d) }
                 } else {
@@ -138,6 +147,11 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                 };
                 quote_spanned! {span=>
                     <#ty as ::static_xml::de::RawDeserialize>::Visitor::finalize(self.#field_visitor, #d)?;
+                    // SAFETY: #field_mut is a valid pointer to what finalize just initialized.
+                    let mut #field_present = unsafe {
+                        ::static_xml::de::FieldGuard::new(#field_mut)
+                    };
+                    unsafe { #field_present.set() };
                 }
             }
             ElementFieldMode::Text => todo!("text fields unimplemented"),
@@ -145,6 +159,22 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
     }).collect()
 }
 
+/// Releases the guards of all fields, once the whole struct is initialized.
+fn release_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
+    struct_
+        .fields
+        .iter()
+        .map(|field| {
+            let span = field.inner.span();
+            let field_present = format_ident!("{}_present", field.ident);
+            match field.mode {
+                ElementFieldMode::Flatten => quote_spanned! {span=> #field_present.release(); },
+                _ => quote_spanned! {span=> self.#field_present.release(); },
+            }
+        })
+        .collect()
+}
+
 fn attributes(struct_: &ElementStruct) -> Vec<TokenStream> {
     struct_
         .sorted_attributes
@@ -171,7 +201,7 @@ fn attribute_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
             let field_present = format_ident!("{}_present", field.ident);
             let field_mut = field_mut(field);
             quote! {
-                Some(#i) if self.#field_present => {
+                Some(#i) if self.#field_present.get() => {
                     Err(::static_xml::de::VisitorError::duplicate_attribute(name))
                 }
                 Some(#i) => {
@@ -181,8 +211,8 @@ fn attribute_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
                             #field_mut,
                             ::static_xml::de::DeserializeAttrField::init(value)?,
                         );
+                        self.#field_present.set();
                     }
-                    self.#field_present = true;
                     Ok(None)
                 }
             }
@@ -201,7 +231,7 @@ fn element_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
             let field_present = format_ident!("{}_present", &field.ident);
             let field_mut = field_mut(field);
             quote_spanned! {span=>
-                Some(#i) if self.#field_present => {
+                Some(#i) if self.#field_present.get() => {
                     ::static_xml::de::DeserializeElementField::update(
                         // SAFETY: the field is initialized when field_present is true.
                         unsafe { &mut *#field_mut },
@@ -215,7 +245,7 @@ fn element_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
                         #field_mut,
                         ::static_xml::de::DeserializeElementField::init(child)?,
                     );
-                    self.#field_present = true;
+                    self.#field_present.set();
                     Ok(None)
                 }
             }
@@ -234,6 +264,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let visitor_field_definitions = visitor_field_definitions(&struct_);
     let visitor_initializers = visitor_initializers(&struct_);
     let finalize_visitor_fields = finalize_visitor_fields(&struct_);
+    let release_fields = release_fields(&struct_);
     let flatten_visitors = quote_flatten_visitors(&struct_);
     let (attribute_fallthrough, element_fallthrough);
     if flatten_visitors.is_empty() {
@@ -310,17 +341,23 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             type Out = #ident;
 
             fn new(out: &'out mut ::std::mem::MaybeUninit<Self::Out>) -> Self {
+                let out = out.as_mut_ptr();
                 Self {
-                    out: out.as_mut_ptr(),
+                    out,
                     _phantom: ::std::marker::PhantomData,
                     #(#visitor_initializers, )*
                 }
             }
 
-            fn finalize(self, _default: Option<fn() -> Self::Out>) -> Result<(), ::static_xml::de::VisitorError> {
+            #[allow(non_snake_case)]
+            fn finalize(mut self, _default: Option<fn() -> Self::Out>) -> Result<(), ::static_xml::de::VisitorError> {
                 // Note _default is currently unsupported for structs.
 
                 #(#finalize_visitor_fields)*
+
+                // Nothing can fail from here on, so pass ownership of the fields to the caller.
+                #(#release_fields)*
+
                 // SAFETY: returning `Ok` guarantees `self.out` is fully initialized.
                 // finalize_visitor_fields has guaranteed that each field is fully initialized.
                 // The padding doesn't matter. This is similar to this example
@@ -411,6 +448,15 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             initialized: bool,
         }
 
+        impl<'out> Drop for #visitor_type<'out> {
+            fn drop(&mut self) {
+                if self.initialized {
+                    // SAFETY: self.out is initialized when self.initialized is true.
+                    unsafe { ::std::ptr::drop_in_place(self.out.as_mut_ptr()) }
+                }
+            }
+        }
+
         impl<'out> ::static_xml::de::ElementVisitor for #visitor_type<'out> {
             fn element<'a>(
                 &mut self,
@@ -451,7 +497,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             }
 
             fn finalize(
-                self,
+                mut self,
                 default: Option<fn() -> Self::Out>,
             ) -> Result<(), ::static_xml::de::VisitorError> {
                 if !self.initialized {
@@ -461,6 +507,10 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                         return Err(static_xml::de::VisitorError::cant_be_empty(stringify!(#ident)));
                     }
                 }
+
+                // Pass ownership of the value to the caller.
+                self.initialized = false;
+
                 // SAFETY: returning `Ok` guarantees `self.out` is fully initialized.
                 Ok(())
             }
diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index e7445e5..d203a6e 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -735,10 +735,68 @@ pub unsafe trait RawDeserializeVisitor<'out>: Sized + ElementVisitor {
 
     /// Finalizes `out`.
     ///
-    /// An `Ok` return guarantees `out.assume_init()` is valid.
+    /// An `Ok` return guarantees `out.assume_init()` is valid. On `Err`, or if
+    /// the visitor is dropped instead, `out` is uninitialized: the visitor must
+    /// have dropped anything it has written to it.
     fn finalize(self, default: Option<fn() -> Self::Out>) -> Result<(), VisitorError>;
 }
 
+/// Tracks whether a field has been initialized, dropping its value if so.
+///
+/// This is for use by the macros, so that if deserialization fails part-way
+/// through, the fields which have already been read aren't leaked.
+#[doc(hidden)]
+pub struct FieldGuard<T> {
+    field: *mut T,
+    initialized: bool,
+}
+
+impl<T> FieldGuard<T> {
+    /// Returns a guard for an uninitialized field.
+    ///
+    /// # Safety
+    ///
+    /// `field` must be valid and properly aligned until the guard is dropped.
+    #[inline]
+    pub unsafe fn new(field: *mut T) -> Self {
+        FieldGuard {
+            field,
+            initialized: false,
+        }
+    }
+
+    /// Returns true if the field is initialized.
+    #[inline]
+    pub fn get(&self) -> bool {
+        self.initialized
+    }
+
+    /// Notes that the field is now initialized.
+    ///
+    /// # Safety
+    ///
+    /// It must really be, and nothing else may own its value.
+    #[inline]
+    pub unsafe fn set(&mut self) {
+        self.initialized = true;
+    }
+
+    /// Releases the field, without dropping its value.
+    #[inline]
+    pub fn release(mut self) {
+        self.initialized = false;
+    }
+}
+
+impl<T> Drop for FieldGuard<T> {
+    fn drop(&mut self) {
+        if self.initialized {
+            // SAFETY: the field is valid and initialized per `new` and `set`.
+            unsafe { std::ptr::drop_in_place(self.field) };
+        }
+    }
+}
+
 /// Raw, unsafe implementation of [`Deserialize`], for use by the macros.
 ///
 /// With `static-xml-derive`, this can be used via `#[static_xml(flatten)]`.
-- 
2.43.0


From 32fa96165eecebbd636f5295c9f50ef08c47a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 09/16] fix: never remap a namespace prefix within the document

xml-rs omits a declaration if any enclosing element has the same one, even if
an element in between has mapped the prefix to something else. The element's
and attributes' names then resolved to the wrong namespace on reading. Also, if
an element's namespace had two prefixes in scope, starting it could panic.
---
 static-xml/src/lib.rs     |  2 ++
 static-xml/src/ser/mod.rs | 56 +++++++++++++++++++++------------------
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/static-xml/src/lib.rs b/static-xml/src/lib.rs
index 23f8655..1c6b746 100644
--- a/static-xml/src/lib.rs
+++ b/static-xml/src/lib.rs
@@ -229,6 +229,8 @@
 //!     a different prefix may be used. These may change without a semver break.
 //!     *   if the parent has already mapped the given URL with a different
 //!         prefix, the parent's will be used.
+//!     *   if an ancestor has already mapped the given prefix to a different
+//!         URL, a number will be appended to it.
 //!     *   if a flattened field's namespace mappings conflict with its
 //!         containing type, the containing type's mappings will be used.
 //!     *   if a namespace is mapped both as the default and with a prefix used
diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 170a7c4..e971487 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -260,6 +260,8 @@ struct NamespacesBuilder<'a>(
     ///
     /// `assigned_prefix` is empty in all of the values.
     BTreeMap<&'a str, Namespace<'a>>,
+    /// The parent's mappings from prefix to URL, if any.
+    Option<&'a xml::namespace::Namespace>,
 );
 
 impl<'a> NamespacesBuilder<'a> {
@@ -305,19 +307,30 @@ impl<'a> NamespacesBuilder<'a> {
 
     /// Finalizes the chosen prefixes, returning an immutable `Namespaces`.
     fn finalize(mut self) -> Namespaces<'a> {
-        let mut by_prefix = xml::namespace::Namespace::empty();
+        // Start with everything which is in scope, and never map any of those
+        // prefixes to something else: `xml::writer` doesn't reliably restore a
+        // prefix's original mapping within an element which has overridden it.
+        let mut by_prefix = match self.1 {
+            Some(inherited) => inherited.clone(),
+            None => xml::namespace::Namespace::empty(),
+        };
+
+        // Returns true if `prefix` is (or already was) mapped to `url`.
+        let mut assign = |prefix: &str, url: &str| match by_prefix.get(prefix) {
+            Some(existing) => existing == url,
+            None => by_prefix.put(prefix, url),
+        };
 
-        // Give first dibs to required mappings, and ensure they get some
-        // assignment even if their requested prefix is taken (or unsuitable,
-        // in the corner case where they requested no prefix but an attribute
-        // uses them).
+        // Ensure required mappings get some assignment even if their requested
+        // prefix is taken (or unsuitable, in the corner case where they
+        // requested no prefix but an attribute uses them).
         for (url, ns) in &mut self.0 {
             if !ns.required {
                 continue;
             }
 
             if !(ns.needs_prefix && ns.requested_prefix.is_empty())
-                && by_prefix.put(ns.requested_prefix.to_owned(), url.to_owned())
+                && assign(ns.requested_prefix, url)
             {
                 ns.assigned_prefix = Some(Cow::Borrowed(ns.requested_prefix));
                 continue;
@@ -327,19 +340,19 @@ impl<'a> NamespacesBuilder<'a> {
                 "" => ("ns", 1),
                 p => (p, 2),
             };
-            while !by_prefix.put(format!("{}{}", prefix, i), url.to_owned()) {
+            while !assign(&format!("{}{}", prefix, i), url) {
                 i += 1;
             }
             ns.assigned_prefix = Some(Cow::Owned(format!("{}{}", prefix, i)));
         }
 
-        // Best-effort assignment for non-required mappings.
+        // Non-required mappings were inherited, and so are still in place.
         for (url, ns) in &mut self.0 {
             if ns.required {
                 continue; // already processed.
             }
 
-            if by_prefix.put(ns.requested_prefix.to_owned(), url.to_owned()) {
+            if assign(ns.requested_prefix, url) {
                 ns.assigned_prefix = Some(Cow::Borrowed(ns.requested_prefix));
             }
         }
@@ -360,24 +373,15 @@ struct Namespaces<'a> {
 
 impl<'a> Namespaces<'a> {
     fn child(&self, namespace: &str) -> NamespacesBuilder {
-        let mut child = NamespacesBuilder::default();
-        let mut found_namespace = false;
+        let mut child = NamespacesBuilder(BTreeMap::default(), Some(&self.by_prefix));
         for (prefix, ns) in &self.by_prefix {
-            let required = if !found_namespace && ns == namespace {
-                found_namespace = true;
-                true
-            } else {
-                false
-            };
-            child.0.insert(
-                ns,
-                Namespace {
-                    requested_prefix: prefix,
-                    assigned_prefix: None,
-                    required,
-                    needs_prefix: false,
-                },
-            );
+            // If a namespace has several prefixes, any one of them will do.
+            child.0.entry(ns).or_insert_with(|| Namespace {
+                requested_prefix: prefix,
+                assigned_prefix: None,
+                required: ns == namespace,
+                needs_prefix: false,
+            });
         }
         child
     }
-- 
2.43.0


From 8cf938490cdbd83ec06fcce1b704646e3c1db255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 10/16] fix: escape namespace URLs

xml-rs writes them as-is, so e.g. a URL with & in it made the whole document
malformed.
---
 static-xml/src/ser/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index e971487..84dfd08 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -178,7 +178,7 @@ impl<'a> ElementBuilder<'a> {
                         .collect::<Vec<_>>(),
                 ),
 
-                namespace: Cow::Borrowed(&namespaces.by_prefix),
+                namespace: Cow::Owned(namespaces.escaped()),
             })
             .map_err(|e| Error(e.to_string()))?;
         Ok(ElementWriter(Some(ElementWriterInner {
@@ -386,6 +386,15 @@ impl<'a> Namespaces<'a> {
         child
     }
 
+    /// Returns the mappings as needed by `xml::writer`, which doesn't escape URLs itself.
+    fn escaped(&self) -> xml::namespace::Namespace {
+        let mut escaped = xml::namespace::Namespace::empty();
+        for (prefix, url) in &self.by_prefix {
+            escaped.put(prefix, xml::escape::escape_str_attribute(url));
+        }
+        escaped
+    }
+
     fn resolve_element<'b>(&'b self, name: &ExpandedNameRef<'b>) -> xml::name::Name<'b>
     where
         'a: 'b,
-- 
2.43.0


From 783410973a155eb0c2b32ceaed3c4ee74b6f636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 11/16] fix: escape text and attributes so that no reader
 alters them

xml-rs writes `>` (and so possibly `]]>`) and `\r` as is in character data,
and `\t` in attribute values. The first isn't well-formed after `]]`; the
others are replaced by line-end and attribute-value normalization.
---
 static-xml/src/ser/mod.rs | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 84dfd08..f89ec81 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -62,6 +62,30 @@ impl std::fmt::Display for Error {
     }
 }
 
+/// Escapes the given text for use in character data.
+///
+/// In addition to `xml-rs`'s own escaping, this covers `\r`, which a reader
+/// would otherwise turn into `\n`, and `>`, which isn't allowed to follow `]]`.
+fn escape_text(text: &str) -> Cow<str> {
+    let escaped = xml::escape::escape_str_pcdata(text);
+    if escaped.contains(&['>', '\r'][..]) {
+        return Cow::Owned(escaped.replace('>', "&gt;").replace('\r', "&#xD;"));
+    }
+    escaped
+}
+
+/// Escapes the given text for use in an attribute value.
+///
+/// In addition to `xml-rs`'s own escaping, this covers `\t`, which a reader
+/// would otherwise turn into a space.
+fn escape_attribute(value: &str) -> Cow<str> {
+    let escaped = xml::escape::escape_str_attribute(value);
+    if escaped.contains('\t') {
+        return Cow::Owned(escaped.replace('\t', "&#x9;"));
+    }
+    escaped
+}
+
 struct WrappedWriter<W: std::io::Write> {
     inner: xml::writer::EventWriter<W>,
 
@@ -161,6 +185,11 @@ impl<'a> ElementBuilder<'a> {
     pub fn start(mut self) -> Result<ElementWriter<'a>, Error> {
         let inner = self.0.take().unwrap();
         let namespaces = inner.namespaces.finalize();
+        let attributes: Vec<_> = inner
+            .attributes
+            .iter()
+            .map(|(k, v)| (k, escape_attribute(v)))
+            .collect();
         inner
             .writer
             .write(XmlEvent::StartElement {
@@ -168,12 +197,11 @@ impl<'a> ElementBuilder<'a> {
 
                 // TODO: better to reuse a Vec and amortize this allocation.
                 attributes: Cow::Owned(
-                    inner
-                        .attributes
+                    attributes
                         .iter()
                         .map(|(k, v)| xml::attribute::Attribute {
                             name: namespaces.resolve_attribute(k),
-                            value: &v,
+                            value: v,
                         })
                         .collect::<Vec<_>>(),
                 ),
@@ -231,7 +259,7 @@ impl<'a> ElementWriter<'a> {
             .as_mut()
             .unwrap()
             .writer
-            .write(XmlEvent::Characters(text))
+            .write(XmlEvent::Characters(&escape_text(text)))
     }
 
     pub fn finish(mut self) -> Result<(), Error> {
@@ -711,6 +739,7 @@ impl<'a> Serializer<'a> {
                 xml::writer::EmitterConfig {
                     perform_indent: self.perform_indent,
                     write_document_declaration: self.write_document_declaration,
+                    perform_escaping: false, // see escape_text and escape_attribute.
                     ..Default::default()
                 },
             ),
-- 
2.43.0


From 212b0ed3758376f5aa8854af4ae34ec42ca2ca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:37 +0000
Subject: [PATCH 12/16] fix: fail the serialization if starting an element
 panics

---
 static-xml/src/ser/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index f89ec81..2f1aaa5 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -183,8 +183,10 @@ impl<'a> ElementBuilder<'a> {
     /// is dropped, serialization will fail.
     #[must_use = "must call finish on the returned writer to complete the document"]
     pub fn start(mut self) -> Result<ElementWriter<'a>, Error> {
-        let inner = self.0.take().unwrap();
-        let namespaces = inner.namespaces.finalize();
+        // Leave `self.0` in place for now, so that `drop` will poison the writer
+        // if resolving a name panics.
+        let inner = self.0.as_mut().unwrap();
+        let namespaces = std::mem::take(&mut inner.namespaces).finalize();
         let attributes: Vec<_> = inner
             .attributes
             .iter()
@@ -209,6 +211,7 @@ impl<'a> ElementBuilder<'a> {
                 namespace: Cow::Owned(namespaces.escaped()),
             })
             .map_err(|e| Error(e.to_string()))?;
+        let inner = self.0.take().unwrap();
         Ok(ElementWriter(Some(ElementWriterInner {
             namespaces,
             writer: inner.writer,
-- 
2.43.0


From 7f49dd945244bd7fbcfe850e99eff7a4dfeaa54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 13/16] fix: fail the serialization if a write to the sink
 panics

---
 static-xml/src/ser/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 2f1aaa5..10c5732 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -91,6 +91,9 @@ struct WrappedWriter<W: std::io::Write> {
 
     /// When `Some`, all futures writes and the overall operation should fail with this error.
     poison: Option<Error>,
+
+    /// True during a write; if it remains so afterward, the write panicked part-way through.
+    writing: bool,
 }
 
 /// A type-erased version of [`WrappedWriter`], to avoid monomorphization bloat.
@@ -107,7 +110,13 @@ impl<W: Write> ErasedEventWriter for WrappedWriter<W> {
         if let Some(ref poison) = self.poison {
             return Err(poison.clone());
         }
-        if let Err(e) = self.inner.write(event) {
+        if self.writing {
+            return Err(Error("a previous write panicked".to_owned()));
+        }
+        self.writing = true;
+        let result = self.inner.write(event);
+        self.writing = false;
+        if let Err(e) = result {
             let wrapped = Error(e.to_string());
             self.poison = Some(wrapped.clone());
             return Err(wrapped);
@@ -747,6 +756,7 @@ impl<'a> Serializer<'a> {
                 },
             ),
             poison: None,
+            writing: false,
         };
         let mut builder = ElementBuilder(Some(ElementBuilderInner {
             name: self.name,
-- 
2.43.0


From 4a9f86d23a0a484e22620b67684f79baf614faef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 14/16] fix: leave out the r# of raw identifiers in names and
 texts

---
 static-xml-derive/src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index c1b2c96..a4e8e1a 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -6,7 +6,7 @@ use std::{cell::RefCell, collections::BTreeMap};
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
 use static_xml::{de::WhiteSpace, ExpandedNameRef};
-use syn::{DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
+use syn::{ext::IdentExt, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
 
 // See serde/serde_derive/src/internals/attr.rs and yaserde_derive/src/common/field.rs
 
@@ -195,7 +195,7 @@ impl<'a> TextEnum<'a> {
                         ));
                     }
                     TextVariantMode::Known {
-                        text: text.unwrap_or_else(|| v.ident.to_string()),
+                        text: text.unwrap_or_else(|| v.ident.unraw().to_string()),
                     }
                 };
                 RestrictionVariant { inner: v, mode }
@@ -267,7 +267,7 @@ impl<'a> Name<'a> {
     fn from_ident(ident: &syn::Ident) -> Name {
         Name {
             ident,
-            local_name: ident.to_string(),
+            local_name: ident.unraw().to_string(),
             prefix: None,
             namespace: None,
         }
-- 
2.43.0


From 3322a31cf3b886e99f72237ebcad6a3b809d638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:32 +0000
Subject: [PATCH 15/16] fix: show the actual message of I/O and UTF-8 errors

xml-rs's Error::msg relies on std::error::Error::description, so most I/O
errors were displayed as "description() is deprecated; use Display".
---
 static-xml/src/de/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index d203a6e..c3bb297 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -233,7 +233,12 @@ enum ErrorKind {
 impl std::fmt::Display for ErrorKind {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-            ErrorKind::Xml(e) => e.msg().fmt(f),
+            ErrorKind::Xml(e) => match e.kind() {
+                // `xml::reader::Error::msg` uses the deprecated `std::error::Error::description`.
+                xml::reader::ErrorKind::Io(io) => io.fmt(f),
+                xml::reader::ErrorKind::Utf8(utf) => utf.fmt(f),
+                _ => e.msg().fmt(f),
+            },
             ErrorKind::Deserializer(e) => e.fmt(f),
             ErrorKind::Msg(msg) => msg.fmt(f),
         }
-- 
2.43.0


From b5c8c9fa37b79fb668d6bd67cf706f4ff19efceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 16/16] fix: report where reading was when an I/O or UTF-8
 error struck

xml-rs gives such errors no position of their own, so they were all said to
be at 1:1.
---
 static-xml/src/de/mod.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index c3bb297..ce38f99 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -159,8 +159,12 @@ impl Error {
         &self.0.stack
     }
 
-    fn xml(stack: &[StackElement], e: xml::reader::Error) -> Self {
-        let pos = e.position();
+    /// `pos` is the reader's position, for errors which don't have one of their own.
+    fn xml(stack: &[StackElement], pos: TextPosition, e: xml::reader::Error) -> Self {
+        let pos = match e.kind() {
+            xml::reader::ErrorKind::Syntax(_) => e.position(),
+            _ => pos,
+        };
         Error(Arc::new(ErrorInner {
             kind: ErrorKind::Xml(e),
             stack: stack.to_vec(),
@@ -313,7 +317,11 @@ impl<R: std::io::Read> Reader<R> {
         // When there's no XML declaration, xml-rs produces any leading
         // processing instructions before its `StartDocument`.
         loop {
-            match self.inner.next().map_err(|e| Error::xml(&[], e))? {
+            match self
+                .inner
+                .next()
+                .map_err(|e| Error::xml(&[], self.inner.position(), e))?
+            {
                 XmlEvent::StartDocument { .. } => break,
                 XmlEvent::ProcessingInstruction { .. } | XmlEvent::Comment { .. } => {}
                 o => {
@@ -360,7 +368,11 @@ impl<R: std::io::Read> Reader<R> {
 
         // Find the `EndDocument`.
         loop {
-            match self.inner.next().map_err(|e| Error::xml(&[], e))? {
+            match self
+                .inner
+                .next()
+                .map_err(|e| Error::xml(&[], self.inner.position(), e))?
+            {
                 XmlEvent::EndDocument => return Ok(()),
                 XmlEvent::ProcessingInstruction { .. } | XmlEvent::Comment { .. } => {}
                 o => {
@@ -481,7 +493,7 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
                 | Ok(XmlEvent::ProcessingInstruction { .. })
                 | Ok(XmlEvent::StartDocument { .. })
                 | Ok(XmlEvent::EndDocument) => continue,
-                Err(e) => return Err(Error::xml(&self.stack[..], e)),
+                Err(e) => return Err(Error::xml(&self.stack[..], self.inner.position(), e)),
             }
         }
     }
-- 
2.43.0

