From 533e6c5e6ed8eaf8ba4f8e80359e5c5087e0d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 01/80] fix: apply default namespaces and namespace scopes of
 the document to element names

---
 relaxng-validator/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 05c1bbf..1b66368 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -705,6 +705,7 @@ impl<'a> Validator<'a> {
                         } else {
                             pat
                         };
+                        self.stack.pop();
                         Self::end_tag_deriv(next_pat, &mut self.schema)
                     }
                     ElementEnd::Empty => {
@@ -727,6 +728,7 @@ impl<'a> Validator<'a> {
                         } else {
                             pat
                         };
+                        self.stack.pop();
                         Self::end_tag_deriv(next_pat, &mut self.schema)
                     }
                 }
@@ -1550,6 +1552,9 @@ fn is_whitespace_str(s: &str) -> bool {
     s.chars().all(is_whitespace_char)
 }
 
+/// The namespace which the `xml` prefix is bound to without being declared
+const XML_NAMESPACE: &str = "http://www.w3.org/XML/1998/namespace";
+
 #[derive(Default)]
 struct ElementStack<'a> {
     elements: Vec<ElementState<'a>>,
@@ -1568,7 +1573,12 @@ impl<'a> ElementStack<'a> {
         prefix: StrSpan<'a>,
     ) -> Result<Option<StrSpan<'a>>, ValidatorError<'a>> {
         if "" == prefix.as_str() {
-            Ok(None)
+            // an empty URI undeclares the default namespace
+            Ok(self
+                .lookup_namespace_uri(&prefix)
+                .filter(|uri| !uri.as_str().is_empty()))
+        } else if "xml" == prefix.as_str() {
+            Ok(Some(StrSpan::from(XML_NAMESPACE)))
         } else {
             Ok(Some(self.lookup_namespace_uri(&prefix).ok_or(
                 ValidatorError::UndefinedNamespacePrefix { prefix },
@@ -1584,6 +1594,9 @@ impl<'a> ElementStack<'a> {
             attributes: vec![],
         })
     }
+    fn pop(&mut self) {
+        self.elements.pop();
+    }
     fn add_attr(
         &mut self,
         prefix: StrSpan<'a>,
-- 
2.43.0


From 22ba672e21acaa28cbaa71b184a293cb623bd6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 02/80] fix: apply the schema's default namespace declaration
 to unprefixed element names

---
 relaxng-model/src/lib.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 40b37f4..9dbdea5 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -345,6 +345,24 @@ impl<'a> Context<'a> {
         }
     }
 
+    fn set_default_namespace_uri(&mut self, uri: String) {
+        match self {
+            Context::Root {
+                default_namespace, ..
+            }
+            | Context::Include {
+                default_namespace, ..
+            } => *default_namespace = uri,
+            Context::IncludeOverrides { .. }
+            | Context::Grammar { .. }
+            | Context::Define { .. }
+            | Context::Element { .. }
+            | Context::Attribute { .. } => {
+                unreachable!("Not expecting to see namespace declarations in this context")
+            }
+        }
+    }
+
     fn declare_namespace(&mut self, prefix: String, uri: String) -> Result<(), RelaxError> {
         match self {
             Context::Root { namespaces, .. } | Context::Include { namespaces, .. } => {
@@ -1847,6 +1865,7 @@ impl<FS: Files> Compiler<FS> {
                         panic!("Can't inherit namespace {prefix:?} at top level, I think?")
                     }
                     NamespaceUriLiteral::Uri(uri) => {
+                        ctx.set_default_namespace_uri(uri.as_string_value());
                         if let Some(p) = prefix {
                             ctx.declare_namespace(p.clone(), uri.as_string_value())
                         } else {
-- 
2.43.0


From 2c0038e06d65d2f4f295e0eff716c51c0be3b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 03/80] fix: match text nodes as a whole and treat empty and
 white-space content as the spec does

---
 relaxng-validator/src/lib.rs | 177 +++++++++++++++++++----------------
 1 file changed, 96 insertions(+), 81 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 1b66368..1fef467 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -523,7 +523,7 @@ pub struct Validator<'a> {
     schema: Schema,
     tokenizer: Tokenizer<'a>,
     current_step: PatId,
-    last_was_start_element: bool,
+    pending_text: Option<PendingText<'a>>,
     stack: ElementStack<'a>,
     entity_definitions: HashMap<String, String>,
 }
@@ -548,7 +548,7 @@ impl<'a> Validator<'a> {
             schema,
             tokenizer,
             current_step: start,
-            last_was_start_element: false,
+            pending_text: None,
             stack: ElementStack::default(),
             entity_definitions,
         }
@@ -653,6 +653,7 @@ impl<'a> Validator<'a> {
                 local,
                 span,
             } => {
+                self.flush_text()?;
                 self.stack.push(prefix, local, span);
                 // does not change current_step state
                 return Ok(());
@@ -689,51 +690,27 @@ impl<'a> Validator<'a> {
                         Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?
                     }
                     ElementEnd::Close(_, _) => {
-                        let next_pat = if self.last_was_start_element {
-                            // The last event was XmlEvent::StartElement with no child elements or child
-                            // text nodes.
-                            //
-                            // Per https://relaxng.org/jclark/derivative.html ,
-                            //     "The case where the list of children is empty is
-                            //      treated as if there were a text node whose value
-                            //      were the empty string."
-                            //
-                            // This fake text node is required for a pattern like 'element foo { token }'
-                            // to match the input '<foo/>' or '<foo></foo>'
-                            let p = Self::text_deriv(pat, &mut self.schema, "");
-                            self.schema.patt(p)
-                        } else {
-                            pat
-                        };
+                        let next_id = self.end_of_content_deriv()?;
+                        let next_pat = self.schema.patt(next_id);
                         self.stack.pop();
                         Self::end_tag_deriv(next_pat, &mut self.schema)
                     }
                     ElementEnd::Empty => {
                         let next_id =
                             Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?;
-                        let pat = self.schema.patt(next_id);
-                        let next_pat = if self.last_was_start_element {
-                            // The last event was XmlEvent::StartElement with no child elements or child
-                            // text nodes.
-                            //
-                            // Per https://relaxng.org/jclark/derivative.html ,
-                            //     "The case where the list of children is empty is
-                            //      treated as if there were a text node whose value
-                            //      were the empty string."
-                            //
-                            // This fake text node is required for a pattern like 'element foo { token }'
-                            // to match the input '<foo/>' or '<foo></foo>'
-                            let p = Self::text_deriv(pat, &mut self.schema, "");
-                            self.schema.patt(p)
-                        } else {
-                            pat
-                        };
+                        self.current_step = next_id;
+                        let next_id = self.end_of_content_deriv()?;
+                        let next_pat = self.schema.patt(next_id);
                         self.stack.pop();
                         Self::end_tag_deriv(next_pat, &mut self.schema)
                     }
                 }
             }
-            Token::Cdata { text, span: _ } => Self::text_deriv(pat, &mut self.schema, &text),
+            Token::Cdata { text, span: _ } => {
+                self.push_text(evt, &text);
+                // does not change current_step state until the whole of the text has been seen
+                return Ok(());
+            }
             Token::Text { text } => {
                 let mut buffer = String::new();
                 for val in parse_entities(text.start(), text.as_str()) {
@@ -775,12 +752,9 @@ impl<'a> Validator<'a> {
                 } else {
                     &buffer[..]
                 };
-                let next_id = Self::text_deriv(pat, &mut self.schema, data);
-                let next_pat = self.schema.patt(next_id);
-                if let Pat::NotAllowed = next_pat {
-                    return Err(ValidatorError::NotAllowed(Token::Text { text }));
-                }
-                next_id
+                self.push_text(evt, data);
+                // does not change current_step state until the whole of the text has been seen
+                return Ok(());
             }
             Token::EntityDeclaration {
                 name,
@@ -806,11 +780,6 @@ impl<'a> Validator<'a> {
                 return Ok(());
             }
         };
-        if let Token::ElementStart { .. } = evt {
-            self.last_was_start_element = true;
-        } else {
-            self.last_was_start_element = false;
-        }
         if let Pat::NotAllowed = self.schema.patt(new) {
             Err(ValidatorError::NotAllowed(evt))
         } else {
@@ -819,6 +788,66 @@ impl<'a> Validator<'a> {
         }
     }
 
+    /// Text may be delivered in several pieces (split by comments, CDATA sections and so on), so
+    /// is accumulated here until the next tag shows that the text node is complete.
+    fn push_text(&mut self, evt: Token<'a>, data: &str) {
+        self.pending_text
+            .get_or_insert_with(|| PendingText {
+                first: evt,
+                data: String::new(),
+            })
+            .data
+            .push_str(data);
+    }
+
+    /// Process text which is followed by the start of a sibling element.
+    ///
+    /// Per https://relaxng.org/jclark/derivative.html ,
+    ///     "[if] there [are] one or more elements amongst the children [..] any whitespace-only
+    ///      text nodes are stripped before the derivative is computed."
+    fn flush_text(&mut self) -> Result<(), ValidatorError<'a>> {
+        if let Some(text) = self.pending_text.take() {
+            if !is_whitespace_str(&text.data) {
+                let pat = self.schema.patt(self.current_step);
+                let next_id = Self::text_deriv(pat, &mut self.schema, &text.data);
+                if let Pat::NotAllowed = self.schema.patt(next_id) {
+                    return Err(ValidatorError::NotAllowed(text.first));
+                }
+                self.current_step = next_id;
+            }
+        }
+        Ok(())
+    }
+
+    /// Process the text (if any) which precedes the end of the current element
+    fn end_of_content_deriv(&mut self) -> Result<PatId, ValidatorError<'a>> {
+        if self.stack.has_child_elements() {
+            self.flush_text()?;
+            return Ok(self.current_step);
+        }
+        // Per https://relaxng.org/jclark/derivative.html ,
+        //     "The case where the list of children is empty is
+        //      treated as if there were a text node whose value
+        //      were the empty string."
+        //
+        // This fake text node is required for a pattern like 'element foo { token }'
+        // to match the input '<foo/>' or '<foo></foo>'
+        let text = self.pending_text.take();
+        let data = text.as_ref().map_or("", |text| &text.data);
+        let pat = self.schema.patt(self.current_step);
+        let next_id = Self::text_deriv(pat, &mut self.schema, data);
+        if is_whitespace_str(data) {
+            // "In the case where the list of children consists of a single text node and the
+            //  value of the text node consists only of whitespace, the list of children
+            //  matches if the list matches either with or without stripping the text node."
+            return Ok(self.schema.choice(self.current_step, next_id));
+        }
+        match (self.schema.patt(next_id), text) {
+            (Pat::NotAllowed, Some(text)) => Err(ValidatorError::NotAllowed(text.first)),
+            _ => Ok(next_id),
+        }
+    }
+
     fn close_element_start<'b: 'a>(
         stack: &ElementStack<'b>,
         schema: &mut Schema,
@@ -935,51 +964,21 @@ impl<'a> Validator<'a> {
             }
             Pat::List(p) => {
                 let mut p = p;
-                for item in text.split_whitespace() {
+                for item in text.split(is_whitespace_char).filter(|s| !s.is_empty()) {
                     let pat = schema.patt(p);
                     p = Self::text_deriv(pat, schema, item);
                     if let Pat::NotAllowed = schema.patt(p) {
                         return p;
                     }
                 }
-                let last_patt = schema.patt(p);
-                if let Pat::Empty = last_patt {
-                    p
-                } else if last_patt.is_nullable() {
-                    // List is not able to be nullable per https://relaxng.org/jclark/derivative.html
-                    // but that definition assumes that we can see all text content up-front
-                    // whereas processing instructions CDATA sections etc may mean we see
-                    // text children piecemeal here.  To accommodate this, we make the list
-                    // optional here (TODO: should we rather adjust List to be nullable?)
-                    schema.choice(schema.list(p), schema.empty())
-                } else {
-                    schema.list(p)
-                }
-            }
-            Pat::Empty => {
-                // from 'An algorithm for RELAX NG validation':
-                //   "In the case where the list of children consists of a single text node and the
-                //    value of the text node consists only of whitespace, the list of children
-                //    matches if the list matches either with or without stripping the text node."
-                //   "Otherwise, there must be one or more elements amongst the children, in which
-                //    case any whitespace-only text nodes are stripped before the derivative is
-                //    computed."
-                // The document assumes however that we can see the list of child nodes, so we need
-                // to handle this case in a streaming manner.  Right now we don't track that
-                // that this pattern is being tested in the context of child nodes - FIXME!
-                if xml::common::is_whitespace_str(text) {
+                if schema.patt(p).is_nullable() {
                     schema.empty()
                 } else {
                     schema.not_allowed()
                 }
             }
-            Pat::NotAllowed | Pat::Attribute(_, _) => schema.not_allowed(),
-            Pat::Element(_, _) => {
-                if xml::common::is_whitespace_str(text) {
-                    schema.push(current) // TODO: just have the PatId to hand
-                } else {
-                    schema.not_allowed()
-                }
+            Pat::Empty | Pat::NotAllowed | Pat::Attribute(_, _) | Pat::Element(_, _) => {
+                schema.not_allowed()
             }
             Pat::Placeholder(name) => unreachable!("Placeholder {:?}", name),
         }
@@ -1457,6 +1456,12 @@ impl<'a> Validator<'a> {
     }
 }
 
+/// The text seen since the last tag
+struct PendingText<'a> {
+    first: Token<'a>,
+    data: String,
+}
+
 #[derive(Debug)]
 enum Txt<'a> {
     Text(usize, &'a str),
@@ -1587,13 +1592,22 @@ impl<'a> ElementStack<'a> {
     }
 
     fn push(&mut self, prefix: StrSpan<'a>, local: StrSpan<'a>, _span: StrSpan<'a>) {
+        if let Some(parent) = self.elements.last_mut() {
+            parent.has_child_elements = true;
+        }
         self.elements.push(ElementState {
+            has_child_elements: false,
             prefix,
             local,
             namespaces: vec![],
             attributes: vec![],
         })
     }
+    fn has_child_elements(&self) -> bool {
+        self.elements
+            .last()
+            .is_some_and(|elem| elem.has_child_elements)
+    }
     fn pop(&mut self) {
         self.elements.pop();
     }
@@ -1667,6 +1681,7 @@ struct UnresolvedAttr<'a> {
     span: StrSpan<'a>,
 }
 struct ElementState<'a> {
+    has_child_elements: bool,
     prefix: StrSpan<'a>,
     local: StrSpan<'a>,
     namespaces: Vec<Ns<'a>>,
-- 
2.43.0


From 1c9fb823db082f432c7755a0e9e3659f95250e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 04/80] fix: report documents which end early, mismatched end
 tags and duplicate attributes

---
 relaxng-validator/src/lib.rs | 83 +++++++++++++++++++++++++++++++++---
 1 file changed, 77 insertions(+), 6 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 1fef467..241c6ba 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -512,6 +512,13 @@ struct QualifiedName<'a> {
     local_name: StrSpan<'a>,
 }
 
+impl PartialEq for QualifiedName<'_> {
+    fn eq(&self, other: &Self) -> bool {
+        let uri = |name: &Self| name.namespace_uri.map_or("", |uri| uri.as_str());
+        uri(self) == uri(other) && self.local_name.as_str() == other.local_name.as_str()
+    }
+}
+
 #[derive(Copy, Clone, Debug)]
 struct Attr<'a> {
     name: QualifiedName<'a>,
@@ -526,6 +533,7 @@ pub struct Validator<'a> {
     pending_text: Option<PendingText<'a>>,
     stack: ElementStack<'a>,
     entity_definitions: HashMap<String, String>,
+    finished: bool,
 }
 
 impl<'a> Validator<'a> {
@@ -551,6 +559,7 @@ impl<'a> Validator<'a> {
             pending_text: None,
             stack: ElementStack::default(),
             entity_definitions,
+            finished: false,
         }
     }
     fn compile(s: &Schema, p: &model::Pattern) -> PatId {
@@ -617,8 +626,23 @@ impl<'a> Validator<'a> {
     pub fn validate_next(&mut self) -> Option<Result<(), ValidatorError<'a>>> {
         match self.tokenizer.next() {
             Some(Ok(evt)) => Some(self.validate(evt)),
-            Some(Err(err)) => Some(Err(ValidatorError::Xml(err))),
-            None => None,
+            Some(Err(err)) => {
+                self.finished = true;
+                Some(Err(ValidatorError::Xml(err)))
+            }
+            None if self.finished => None,
+            None => {
+                self.finished = true;
+                // the tokenizer does not report a missing root element or unclosed elements
+                if self.stack.is_complete() {
+                    None
+                } else {
+                    Some(Err(ValidatorError::Xml(xmlparser::Error::InvalidElement(
+                        xmlparser::StreamError::UnexpectedEndOfStream,
+                        self.tokenizer.stream().gen_text_pos(),
+                    ))))
+                }
+            }
         }
     }
 
@@ -680,7 +704,9 @@ impl<'a> Validator<'a> {
                 value,
                 span,
             } => {
-                self.stack.add_attr(prefix, local, value, span);
+                if !self.stack.add_attr(prefix, local, value, span) {
+                    return Err(ValidatorError::NotAllowed(evt));
+                }
                 // does not change current_step state
                 return Ok(());
             }
@@ -689,7 +715,10 @@ impl<'a> Validator<'a> {
                     ElementEnd::Open => {
                         Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?
                     }
-                    ElementEnd::Close(_, _) => {
+                    ElementEnd::Close(prefix, local) => {
+                        if !self.stack.is_current(prefix, local) {
+                            return Err(ValidatorError::NotAllowed(evt));
+                        }
                         let next_id = self.end_of_content_deriv()?;
                         let next_pat = self.schema.patt(next_id);
                         self.stack.pop();
@@ -868,7 +897,16 @@ impl<'a> Validator<'a> {
             _p => {
                 let attributes: Vec<_> = stack.current_attributes()?;
                 let mut pat = next_pat;
-                for att in attributes {
+                for (i, att) in attributes.iter().copied().enumerate() {
+                    if attributes[..i].iter().any(|other| other.name == att.name) {
+                        // different prefixes for the same namespace
+                        return Err(ValidatorError::NotAllowed(Token::Attribute {
+                            prefix: att.name.namespace_uri.unwrap_or_else(|| StrSpan::from("")),
+                            local: att.name.local_name,
+                            value: att.value,
+                            span: att.span,
+                        }));
+                    }
                     let mut memo = HashMap::new();
                     pat = Self::att_deriv(&mut memo, pat, schema, att);
                     if let Pat::NotAllowed = schema.patt(pat) {
@@ -1563,6 +1601,7 @@ const XML_NAMESPACE: &str = "http://www.w3.org/XML/1998/namespace";
 #[derive(Default)]
 struct ElementStack<'a> {
     elements: Vec<ElementState<'a>>,
+    seen_root: bool,
 }
 
 impl<'a> ElementStack<'a> {
@@ -1595,6 +1634,7 @@ impl<'a> ElementStack<'a> {
         if let Some(parent) = self.elements.last_mut() {
             parent.has_child_elements = true;
         }
+        self.seen_root = true;
         self.elements.push(ElementState {
             has_child_elements: false,
             prefix,
@@ -1611,13 +1651,38 @@ impl<'a> ElementStack<'a> {
     fn pop(&mut self) {
         self.elements.pop();
     }
+    /// The root element has been seen, and all elements have been closed
+    fn is_complete(&self) -> bool {
+        self.seen_root && self.elements.is_empty()
+    }
+    fn is_current(&self, prefix: StrSpan<'a>, local: StrSpan<'a>) -> bool {
+        self.elements.last().is_some_and(|elem| {
+            elem.prefix.as_str() == prefix.as_str() && elem.local.as_str() == local.as_str()
+        })
+    }
+    /// Returns false if the attribute is not allowed in a well-formed document (the element already
+    /// has an attribute of that name, or it would undeclare a prefix)
     fn add_attr(
         &mut self,
         prefix: StrSpan<'a>,
         local: StrSpan<'a>,
         value: StrSpan<'a>,
         span: StrSpan<'a>,
-    ) {
+    ) -> bool {
+        let elem = self.elements.last().unwrap();
+        let is_duplicate = if prefix.as_str() == "xmlns" {
+            elem.declares_prefix(local.as_str())
+        } else if prefix.as_str() == "" && local.as_str() == "xmlns" {
+            elem.declares_prefix("")
+        } else {
+            elem.attributes.iter().any(|att| {
+                att.prefix.as_str() == prefix.as_str() && att.local.as_str() == local.as_str()
+            })
+        };
+        let is_undeclaration = prefix.as_str() == "xmlns" && value.as_str().is_empty();
+        if is_duplicate || is_undeclaration {
+            return false;
+        }
         if prefix.as_str() == "xmlns" {
             self.elements.last_mut().unwrap().namespaces.push(Ns {
                 prefix: local,
@@ -1640,6 +1705,7 @@ impl<'a> ElementStack<'a> {
                     span,
                 })
         }
+        true
     }
     fn current_element(&self) -> Result<QualifiedName<'a>, ValidatorError<'a>> {
         let curr = self.elements.last().unwrap();
@@ -1689,6 +1755,11 @@ struct ElementState<'a> {
 }
 
 impl<'a> ElementState<'a> {
+    fn declares_prefix(&self, prefix: &str) -> bool {
+        self.namespaces
+            .iter()
+            .any(|ns| ns.prefix.as_str() == prefix)
+    }
     fn lookup_namespace_uri(&self, prefix: &str) -> Option<StrSpan<'a>> {
         self.namespaces
             .iter()
-- 
2.43.0


From 4e332ca74fec665a56dd92527860f800ba9ccbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 05/80] fix: replace references and normalize white space in
 text and attribute values

---
 relaxng-validator/src/lib.rs | 182 +++++++++++++++++++++--------------
 1 file changed, 109 insertions(+), 73 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 241c6ba..7c6f6f9 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -520,9 +520,10 @@ impl PartialEq for QualifiedName<'_> {
 }
 
 #[derive(Copy, Clone, Debug)]
-struct Attr<'a> {
+struct Attr<'a, 'b> {
     name: QualifiedName<'a>,
     value: StrSpan<'a>,
+    data: &'b str,
     span: StrSpan<'a>,
 }
 
@@ -532,7 +533,7 @@ pub struct Validator<'a> {
     current_step: PatId,
     pending_text: Option<PendingText<'a>>,
     stack: ElementStack<'a>,
-    entity_definitions: HashMap<String, String>,
+    entity_definitions: HashMap<String, StrSpan<'a>>,
     finished: bool,
 }
 
@@ -547,11 +548,11 @@ impl<'a> Validator<'a> {
             Rc::as_ref(&model).borrow().as_ref().unwrap().pattern(),
         );
         let mut entity_definitions = HashMap::default();
-        entity_definitions.insert("lt".to_string(), "<".to_string());
-        entity_definitions.insert("gt".to_string(), ">".to_string());
-        entity_definitions.insert("amp".to_string(), "&".to_string());
-        entity_definitions.insert("apos".to_string(), "'".to_string());
-        entity_definitions.insert("quot".to_string(), "\"".to_string());
+        entity_definitions.insert("lt".to_string(), StrSpan::from("<"));
+        entity_definitions.insert("gt".to_string(), StrSpan::from(">"));
+        entity_definitions.insert("amp".to_string(), StrSpan::from("&"));
+        entity_definitions.insert("apos".to_string(), StrSpan::from("'"));
+        entity_definitions.insert("quot".to_string(), StrSpan::from("\""));
         Validator {
             schema,
             tokenizer,
@@ -704,7 +705,10 @@ impl<'a> Validator<'a> {
                 value,
                 span,
             } => {
-                if !self.stack.add_attr(prefix, local, value, span) {
+                let mut expansion = Expansion::default();
+                self.expand(value, true, &mut expansion)?;
+                let data = expansion.buffer;
+                if !self.stack.add_attr(prefix, local, value, data, span) {
                     return Err(ValidatorError::NotAllowed(evt));
                 }
                 // does not change current_step state
@@ -736,52 +740,14 @@ impl<'a> Validator<'a> {
                 }
             }
             Token::Cdata { text, span: _ } => {
-                self.push_text(evt, &text);
+                self.push_text(evt, &normalize_newlines(&text));
                 // does not change current_step state until the whole of the text has been seen
                 return Ok(());
             }
             Token::Text { text } => {
-                let mut buffer = String::new();
-                for val in parse_entities(text.start(), text.as_str()) {
-                    match val {
-                        Ok(val) => {
-                            let txt = match val {
-                                Txt::Text(_pos, val) => val,
-                                Txt::Entity(pos, name) => {
-                                    if let Some(txt) = self.entity_definitions.get(name) {
-                                        txt
-                                    } else {
-                                        return Err(ValidatorError::UndefinedEntity {
-                                            name,
-                                            span: pos..pos + name.len(),
-                                        });
-                                    }
-                                }
-                                Txt::Char(_pos, val) => {
-                                    buffer.push(val);
-                                    continue;
-                                }
-                            };
-                            // we only reach this point for Txt::Text and Txt::Entity cases,
-                            if txt.len() == text.len() {
-                                // no need to copy data into the buffer, just process the whole input in one go
-                                break;
-                            } else {
-                                // the input contains entities, so we decode these and append to buffer
-                                buffer.push_str(txt);
-                            }
-                        }
-                        Err(err) => {
-                            return Err(err);
-                        }
-                    }
-                }
-                let data = if buffer.is_empty() {
-                    text.as_str()
-                } else {
-                    &buffer[..]
-                };
-                self.push_text(evt, data);
+                let mut expansion = Expansion::default();
+                self.expand(text, false, &mut expansion)?;
+                self.push_text(evt, &expansion.buffer);
                 // does not change current_step state until the whole of the text has been seen
                 return Ok(());
             }
@@ -792,8 +758,10 @@ impl<'a> Validator<'a> {
             } => {
                 match definition {
                     EntityDefinition::EntityValue(val) => {
+                        // if there are several declarations of an entity, the first is binding
                         self.entity_definitions
-                            .insert(name.to_string(), val.to_string());
+                            .entry(name.to_string())
+                            .or_insert(val);
                         // does not change current_step state
                         return Ok(());
                     }
@@ -817,6 +785,46 @@ impl<'a> Validator<'a> {
         }
     }
 
+    /// Appends the given text to `out`, with line-ends normalized and all character and entity
+    /// references replaced.
+    fn expand(
+        &self,
+        text: StrSpan<'a>,
+        is_attribute: bool,
+        out: &mut Expansion<'a>,
+    ) -> Result<(), ValidatorError<'a>> {
+        for val in parse_entities(text.start(), text.as_str()) {
+            match val? {
+                Txt::Text(_pos, val) if is_attribute => out
+                    .buffer
+                    .push_str(&normalize_newlines(val).replace(is_whitespace_char, " ")),
+                Txt::Text(_pos, val) => out.buffer.push_str(&normalize_newlines(val)),
+                Txt::Char(_pos, val) => out.buffer.push(val),
+                Txt::Entity(pos, name) => {
+                    let span = pos..pos + name.len();
+                    let Some(definition) = self.entity_definitions.get(name) else {
+                        return Err(ValidatorError::UndefinedEntity { name, span });
+                    };
+                    if is_predefined_entity(name) {
+                        out.buffer.push_str(definition.as_str());
+                        continue;
+                    }
+                    out.size += 1 + definition.len();
+                    if out.open_entities.contains(&name)
+                        || out.open_entities.len() > MAX_ENTITY_DEPTH
+                        || out.size > MAX_EXPANSION
+                    {
+                        return Err(ValidatorError::InvalidOrUnclosedEntity { span });
+                    }
+                    out.open_entities.push(name);
+                    self.expand(*definition, is_attribute, out)?;
+                    out.open_entities.pop();
+                }
+            }
+        }
+        Ok(())
+    }
+
     /// Text may be delivered in several pieces (split by comments, CDATA sections and so on), so
     /// is accumulated here until the next tag shows that the text node is complete.
     fn push_text(&mut self, evt: Token<'a>, data: &str) {
@@ -1163,7 +1171,7 @@ impl<'a> Validator<'a> {
             }
             Pat::Attribute(ref nc, p) => {
                 let att_pat = schema.patt(p);
-                if contains(nc, att.name) && Self::value_match(att_pat, schema, &att.value) {
+                if contains(nc, att.name) && Self::value_match(att_pat, schema, att.data) {
                     schema.empty()
                 } else {
                     schema.not_allowed()
@@ -1500,6 +1508,15 @@ struct PendingText<'a> {
     data: String,
 }
 
+/// Text in which references have been replaced
+#[derive(Default)]
+struct Expansion<'a> {
+    buffer: String,
+    open_entities: Vec<&'a str>,
+    /// the total size of the entities which have been replaced
+    size: usize,
+}
+
 #[derive(Debug)]
 enum Txt<'a> {
     Text(usize, &'a str),
@@ -1521,7 +1538,7 @@ fn parse_entities(
         type Item = Result<Txt<'a>, ValidatorError<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            if self.offset == self.text.len() {
+            if self.offset == self.text.len() && !self.in_entity {
                 return None;
             }
             for (i, c) in self.text[self.offset..].char_indices() {
@@ -1530,7 +1547,7 @@ fn parse_entities(
                         self.in_entity = false;
                         let text = &self.text[self.offset..self.offset + i];
                         let result = if let Some(text) = text.strip_prefix('#') {
-                            numeric_entity(self.offset, text)
+                            numeric_entity(self.offset + self.pos, text)
                         } else {
                             Ok(Txt::Entity(self.offset + self.pos, text))
                         };
@@ -1559,25 +1576,20 @@ fn parse_entities(
         }
     }
     fn numeric_entity(pos: usize, text: &str) -> Result<Txt<'_>, ValidatorError<'_>> {
-        if text.is_empty() {
-            return Err(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos });
-        }
-        let c = if let Some(text) = text.strip_prefix('x') {
-            let pos = pos + 1;
-            if text.is_empty() {
-                return Err(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos });
-            }
-            u32::from_str_radix(text, 16)
-                .map_err(|_e| ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?
-        } else {
-            text.parse()
-                .map_err(|_e| ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?
+        let span = pos..pos + 1 + text.len();
+        let invalid = || ValidatorError::InvalidOrUnclosedEntity { span: span.clone() };
+        let (digits, radix) = match text.strip_prefix('x') {
+            Some(digits) => (digits, 16),
+            None => (text, 10),
         };
-        Ok(Txt::Char(
-            pos,
-            std::char::from_u32(c)
-                .ok_or(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?,
-        ))
+        if !digits.chars().all(|c| c.is_digit(radix)) {
+            return Err(invalid());
+        }
+        let c = u32::from_str_radix(digits, radix).map_err(|_e| invalid())?;
+        match std::char::from_u32(c) {
+            Some(c) if is_xml_char(c) => Ok(Txt::Char(pos, c)),
+            _ => Err(invalid()),
+        }
     }
     Entities {
         text,
@@ -1587,6 +1599,25 @@ fn parse_entities(
     }
 }
 
+/// Entities whose replacement text is never parsed again
+fn is_predefined_entity(name: &str) -> bool {
+    ["lt", "gt", "amp", "apos", "quot"].contains(&name)
+}
+
+/// Limit to the total size of the entities replaced in one piece of text, since nested references
+/// can produce texts of exponential size
+const MAX_EXPANSION: usize = 1 << 20;
+/// Limit to the nesting of entity references
+const MAX_ENTITY_DEPTH: usize = 64;
+
+fn normalize_newlines(text: &str) -> String {
+    text.replace("\r\n", "\n").replace('\r', "\n")
+}
+
+fn is_xml_char(c: char) -> bool {
+    matches!(c, '\x09' | '\x0a' | '\x0d' | '\x20'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
+}
+
 fn is_whitespace_char(c: char) -> bool {
     ['\x20', '\x09', '\x0d', '\x0a'].contains(&c)
 }
@@ -1667,6 +1698,7 @@ impl<'a> ElementStack<'a> {
         prefix: StrSpan<'a>,
         local: StrSpan<'a>,
         value: StrSpan<'a>,
+        data: String,
         span: StrSpan<'a>,
     ) -> bool {
         let elem = self.elements.last().unwrap();
@@ -1702,6 +1734,7 @@ impl<'a> ElementStack<'a> {
                     prefix,
                     local,
                     value,
+                    data,
                     span,
                 })
         }
@@ -1715,7 +1748,7 @@ impl<'a> ElementStack<'a> {
             local_name: curr.local,
         })
     }
-    fn current_attributes(&self) -> Result<Vec<Attr<'a>>, ValidatorError<'a>> {
+    fn current_attributes(&self) -> Result<Vec<Attr<'a, '_>>, ValidatorError<'a>> {
         self.elements
             .last()
             .unwrap()
@@ -1733,6 +1766,7 @@ impl<'a> ElementStack<'a> {
                         local_name: unresolved.local,
                     },
                     value: unresolved.value,
+                    data: &unresolved.data,
                     span: unresolved.span,
                 })
             })
@@ -1744,6 +1778,8 @@ struct UnresolvedAttr<'a> {
     prefix: StrSpan<'a>,
     local: StrSpan<'a>,
     value: StrSpan<'a>,
+    /// The value, with references replaced
+    data: String,
     span: StrSpan<'a>,
 }
 struct ElementState<'a> {
-- 
2.43.0


From eea4ec6f53eb39e4e4751a6a0329fbe691c7acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 06/80] fix: report the position of XML syntax errors without
 panicking

---
 relaxng-validator/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 7c6f6f9..9dec6b4 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1381,8 +1381,14 @@ impl<'a> Validator<'a> {
         let mut diagnostics = vec![];
         match err {
             ValidatorError::Xml(err) => {
-                let line = file.line_span(err.pos().row as _);
-                let span = line.subspan(err.pos().row as _, err.pos().row as _);
+                // rows and columns are counted from 1, and columns are counted in characters
+                let line = file.line_span(err.pos().row as usize - 1);
+                let text = file.source_slice(line);
+                let offset = text
+                    .char_indices()
+                    .nth(err.pos().col as usize - 1)
+                    .map_or(text.len(), |(offset, _)| offset);
+                let span = line.subspan(offset as _, offset as _);
 
                 let label = codemap_diagnostic::SpanLabel {
                     span,
-- 
2.43.0


From becdb66c6bb89cfcec02678a5e4eeae6db45ba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 07/80] fix: list the elements which may follow an optional
 part, each once, as expected

---
 relaxng-validator/src/lib.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 9dec6b4..fab508b 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -2,7 +2,7 @@ use relaxng_model::datatype::Datatype;
 use relaxng_model::model::NameClass;
 use relaxng_model::{datatype, model};
 use std::cell::RefCell;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 use std::io;
 use std::rc::Rc;
 use xmlparser::{ElementEnd, EntityDefinition, StrSpan, Token, Tokenizer};
@@ -1264,10 +1264,8 @@ impl<'a> Validator<'a> {
                 self.head(result, p2);
             }
             Pat::Group(p1, p2, _) => {
+                self.head(result, p1);
                 if self.schema.patt(p1).is_nullable() {
-                    self.head(result, p1);
-                } else {
-                    self.head(result, p1);
                     self.head(result, p2);
                 }
             }
@@ -1302,17 +1300,22 @@ impl<'a> Validator<'a> {
         let mut result = String::new();
         const MAX_ELEMENTS: usize = 4;
         let mut rest = 0;
-        for (i, nameclass) in heads
+        // several patterns may have the same name
+        let names: BTreeSet<String> = heads
             .iter()
             .filter_map(|p| {
                 if let Pat::Element(nameclass, _) = p {
-                    Some(nameclass)
+                    // TODO: also provide namespace information; grouping by namespace to make the
+                    //       information more succinct
+                    let mut desc = String::new();
+                    self.describe_nameclass(nameclass, &mut desc);
+                    Some(desc)
                 } else {
                     None
                 }
             })
-            .enumerate()
-        {
+            .collect();
+        for (i, desc) in names.iter().enumerate() {
             if i == 0 {
                 result.push_str("Element ");
             }
@@ -1322,11 +1325,7 @@ impl<'a> Validator<'a> {
                 if i > 0 {
                     result.push(' ');
                 }
-                // TODO: also provide namespace information; grouping by namespace to make the
-                //       information more succinct
-                let mut desc = String::new();
-                self.describe_nameclass(nameclass, &mut desc);
-                result.push_str(&desc);
+                result.push_str(desc);
             }
         }
         if rest > 0 {
-- 
2.43.0


From 4ac94575651de2b78b93b48a6c95dde270e797f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 08/80] fix: do not limit the number of patterns seen while
 validating a document to 2^16

---
 relaxng-validator/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index fab508b..fca090a 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -24,7 +24,7 @@ pub enum ValidatorError<'a> {
 }
 
 #[derive(PartialEq, Eq, Hash, Copy, Clone, Debug)]
-struct PatId(u16);
+struct PatId(u32);
 
 // TODO: separate representations?
 //       1) includes 'Placeholder, but doesn't include nullability flags or 'After'
@@ -87,13 +87,13 @@ struct Schema {
 impl Schema {
     fn push(&self, p: Pat) -> PatId {
         let mut inner = self.inner.borrow_mut();
-        if inner.patterns.len() > 0xffff {
-            panic!("Only up to 2^16 rules supported in one schema")
+        if inner.patterns.len() > 0xffff_ffff {
+            panic!("Only up to 2^32 rules supported in one schema")
         }
         if let Some(id) = inner.memo.get(&p) {
             *id
         } else {
-            let id = PatId(inner.patterns.len() as u16);
+            let id = PatId(inner.patterns.len() as u32);
             inner.memo.insert(p.clone(), id);
             inner.patterns.push(p);
             id
-- 
2.43.0


From 5cb73aaf7d72e96bda7fd864d78cdfa7ffabcca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 09/80] fix: support definitions which are aliases of recursive
 definitions

---
 relaxng-validator/src/lib.rs | 53 ++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index fca090a..91fca6b 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -48,7 +48,7 @@ enum Pat {
     DatatypeValue(datatype::DatatypeValues),
     DatatypeExcept(datatype::Datatypes, PatId),
     List(PatId),
-    Placeholder(*const Option<relaxng_model::model::DefineRule>),
+    Placeholder(*const model::Pattern),
     After(PatId, PatId),
 }
 
@@ -79,6 +79,7 @@ struct Inner {
     memo: HashMap<Pat, PatId>,
     patterns: Vec<Pat>,
     refs: HashMap<*const Option<relaxng_model::model::DefineRule>, PatId>,
+    contents: HashMap<*const model::Pattern, PatId>,
 }
 #[derive(Default)]
 struct Schema {
@@ -198,41 +199,29 @@ impl Schema {
         let inner = self.inner.borrow_mut();
         inner.refs.get(&p).copied()
     }
-    /*
     fn set_ref(&self, p: *const Option<relaxng_model::model::DefineRule>, id: PatId) {
         let mut inner = self.inner.borrow_mut();
         inner.refs.insert(p, id);
     }
-    */
-    fn ref_placeholder(
-        &self,
-        p: *const Option<relaxng_model::model::DefineRule>,
-        _name: &str,
-    ) -> PatId {
+    fn get_content(&self, p: *const model::Pattern) -> Option<PatId> {
+        let inner = self.inner.borrow();
+        inner.contents.get(&p).copied()
+    }
+    fn content_placeholder(&self, p: *const model::Pattern) -> PatId {
         let pl = Pat::Placeholder(p);
         let id = self.push(pl);
         let mut inner = self.inner.borrow_mut();
-        inner.refs.insert(p, id);
+        inner.contents.insert(p, id);
         id
     }
-    fn resolve_ref(&self, placeholder_id: PatId, id: PatId, name: &str) {
-        if placeholder_id == id {
-            // we already resolved this placeholder
-            return;
-        }
+    fn resolve_placeholder(&self, placeholder_id: PatId, id: PatId) {
         let target = self.patt(id);
-        if let Pat::Placeholder(_) = target {
-            panic!(
-                "can't resolve placeholder {} with another placeholder {}",
-                placeholder_id.0, id.0
-            );
-        }
         let mut inner = self.inner.borrow_mut();
         match &inner.patterns[placeholder_id.0 as usize] {
             Pat::Placeholder(_) => (),
             p => panic!(
-                "expected placeholder but got {:?}, with id {} while trying to resolve it to {}, for definition {:?}",
-                p, placeholder_id.0, id.0, name
+                "expected placeholder but got {:?}, with id {} while trying to resolve it to {}",
+                p, placeholder_id.0, id.0
             ),
         }
         inner.patterns[placeholder_id.0 as usize] = target;
@@ -599,17 +588,29 @@ impl<'a> Validator<'a> {
             }
             model::Pattern::OneOrMore(p) => s.one_or_more(Self::compile(s, p)),
             model::Pattern::Attribute(name, p) => s.attribute(name.clone(), Self::compile(s, p)),
-            model::Pattern::Element(name, p) => s.element(name.clone(), Self::compile(s, p)),
+            model::Pattern::Element(name, p) => {
+                // recursive references are only allowed within the content of elements, so that
+                // is where a placeholder is needed
+                let ptr: *const model::Pattern = &**p;
+                let content_id = if let Some(id) = s.get_content(ptr) {
+                    id
+                } else {
+                    let placeholder_id = s.content_placeholder(ptr);
+                    let id = Self::compile(s, p);
+                    s.resolve_placeholder(placeholder_id, id);
+                    placeholder_id
+                };
+                s.element(name.clone(), content_id)
+            }
             model::Pattern::Ref(whence, name, r) => {
                 let ptr = r.0.as_ptr();
                 if let Some(id) = s.get_ref(ptr) {
                     id
                 } else {
-                    let placeholder_id = s.ref_placeholder(ptr, name);
                     if let Some(thing) = Rc::as_ref(&r.0).borrow().as_ref() {
                         let id = Self::compile(s, thing.pattern());
-                        s.resolve_ref(placeholder_id, id, name);
-                        placeholder_id
+                        s.set_ref(ptr, id);
+                        id
                     } else {
                         panic!("Somehow definition for {name:#?} is missing, used in {whence:?}")
                     }
-- 
2.43.0


From cc4ae700ffa1c4f6133d25cc8ab0c26b7430da5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 10/80] fix: eliminate redundant choices, and missing repeated
 attributes at the end of the start tag

---
 relaxng-validator/src/lib.rs | 52 +++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 91fca6b..79ce588 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -101,7 +101,7 @@ impl Schema {
         }
     }
     pub fn choice(&self, left: PatId, right: PatId) -> PatId {
-        // TODO:
+        // From 'An algorithm for RELAX NG validation':
         //       "In order to avoid exponential blowup with some patterns, it is essential
         //        for the choice function to eliminate redundant choices. Define the
         //        choice-leaves of a pattern to be the concatenation of the choice-leaves of
@@ -115,21 +115,50 @@ impl Schema {
         match (self.patt(left), self.patt(right)) {
             (Pat::NotAllowed, _) => right,
             (_, Pat::NotAllowed) => left,
-            (l, r) => {
+            (l, _r) => {
                 if left == right {
                     //println!("Choices are identical: left=right={:?} - {}", l, left.0);
                     return left;
                 }
-                if l.is_nullable() {
-                    //println!("**redundant choice construction? l => nullable");
-                }
-                if r.is_nullable() {
-                    //println!("**redundant choice construction? r => nullable");
-                }
+                let mut leaves = HashSet::new();
+                self.choice_leaves(left, &mut leaves);
+                let Some(right) = self.without_leaves(right, &leaves) else {
+                    return left;
+                };
+                let r = self.patt(right);
                 self.push(Pat::Choice(left, right, l.is_nullable() || r.is_nullable()))
             }
         }
     }
+    /// Collects the operands of a (possibly nested) choice
+    fn choice_leaves(&self, id: PatId, leaves: &mut HashSet<PatId>) {
+        match self.patt(id) {
+            Pat::Choice(left, right, _) => {
+                self.choice_leaves(left, leaves);
+                self.choice_leaves(right, leaves);
+            }
+            _ => {
+                leaves.insert(id);
+            }
+        }
+    }
+    /// Removes those operands of a (possibly nested) choice which are in the given set
+    fn without_leaves(&self, id: PatId, leaves: &HashSet<PatId>) -> Option<PatId> {
+        match self.patt(id) {
+            Pat::Choice(left, right, _) => {
+                match (
+                    self.without_leaves(left, leaves),
+                    self.without_leaves(right, leaves),
+                ) {
+                    (Some(l), Some(r)) if (l, r) == (left, right) => Some(id),
+                    (Some(l), Some(r)) => Some(self.choice(l, r)),
+                    (l, r) => l.or(r),
+                }
+            }
+            _ if leaves.contains(&id) => None,
+            _ => Some(id),
+        }
+    }
     pub fn interleave(&self, left: PatId, right: PatId) -> PatId {
         match (self.patt(left), self.patt(right)) {
             (Pat::NotAllowed, _) => self.not_allowed(),
@@ -174,6 +203,9 @@ impl Schema {
     }
     pub fn one_or_more(&self, pattern: PatId) -> PatId {
         let p = self.patt(pattern);
+        if let Pat::NotAllowed = p {
+            return pattern;
+        }
         self.push(Pat::OneOrMore(pattern, p.is_nullable()))
     }
     fn attribute(&self, name: model::NameClass, p: PatId) -> PatId {
@@ -1216,8 +1248,8 @@ impl<'a> Validator<'a> {
                 schema.interleave(c1, c2)
             }
             Pat::OneOrMore(p, _) => {
-                let _o = Self::start_tag_close_deriv(p, schema);
-                schema.one_or_more(p)
+                let o = Self::start_tag_close_deriv(p, schema);
+                schema.one_or_more(o)
             }
             Pat::Attribute(_, _) => schema.not_allowed(),
             _ => pid,
-- 
2.43.0


From 5cdaefa0ab0ae5153457ae634008744575eca112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 11/80] fix: report undefined names in nested grammars

---
 relaxng-model/src/lib.rs   | 27 +++++++++++++++------------
 relaxng-model/src/model.rs |  2 +-
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 9dbdea5..243780d 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1655,12 +1655,9 @@ impl<FS: Files> Compiler<FS> {
                     }
                 }
                 if let Some(r) = child_ctx.get_ref("start") {
-                    r.borrow_mut()
-                        .take()
-                        .map(|d| match d {
-                            model::DefineRule::AssignCombine(_, _, p)
-                            | model::DefineRule::CombineOnly(_, _, p) => p,
-                        })
+                    r.borrow()
+                        .as_ref()
+                        .map(|d| d.pattern().clone())
                         .ok_or(RelaxError::StartRuleNotDefined { span: file_span })
                 } else {
                     Err(RelaxError::StartRuleNotDefined { span: file_span })
@@ -1678,13 +1675,19 @@ impl<FS: Files> Compiler<FS> {
 
         let content = &grammar.content[..];
         self.compile_grammar_contents(&mut child_ctx, content)?;
+        for (name, r) in child_ctx.ref_iter() {
+            if r.borrow().is_none() {
+                // TODO: retain span information for references so that we don't report bogus data
+                return Err(RelaxError::UndefinedReference {
+                    span: ctx.convert_span(&grammar.span),
+                    identifier: name,
+                });
+            }
+        }
         if let Some(r) = child_ctx.get_ref("start") {
-            r.borrow_mut()
-                .take()
-                .map(|d| match d {
-                    model::DefineRule::AssignCombine(_, _, p)
-                    | model::DefineRule::CombineOnly(_, _, p) => p,
-                })
+            r.borrow()
+                .as_ref()
+                .map(|d| d.pattern().clone())
                 .ok_or_else(|| RelaxError::StartRuleNotDefined {
                     span: ctx.convert_span(&grammar.span),
                 })
diff --git a/relaxng-model/src/model.rs b/relaxng-model/src/model.rs
index de3d9f5..a03659c 100644
--- a/relaxng-model/src/model.rs
+++ b/relaxng-model/src/model.rs
@@ -31,7 +31,7 @@ pub enum CombineRule {
     Interleave,
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub enum Pattern {
     Choice(Vec<Pattern>),
     Interleave(Vec<Pattern>),
-- 
2.43.0


From 1f67039cf0850fb8fca833c6fb42fa967b6ca058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 12/80] fix: report definitions which refer to themselves
 through other definitions

---
 relaxng-model/src/lib.rs | 57 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 243780d..8901564 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -595,7 +595,8 @@ impl<'a> Context<'a> {
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.acquire_parent_ref(id),
-            Context::Grammar { parent, .. } => parent.acquire_ref(id),
+            // a recursive reference is found later, by check_recursion()
+            Context::Grammar { parent, .. } => parent.acquire_ref_impl(id),
         }
     }
     /// Given the identifier if a reference, checks that the current context is not actually the
@@ -759,6 +760,7 @@ impl<FS: Files> Compiler<FS> {
                 let ptr = def.0.as_ptr() as usize;
                 if !seen.contains(&ptr) {
                     seen.insert(ptr);
+                    self.check_recursion(&mut vec![], &mut HashSet::new(), patt)?;
                     if let Some(rule) = def.0.borrow().as_ref() {
                         self.check(seen, rule.pattern())?
                     } else {
@@ -778,6 +780,59 @@ impl<FS: Files> Compiler<FS> {
         Ok(())
     }
 
+    /// Checks that the given pattern does not lead back to a definition that it references, unless
+    /// through the content of an element
+    #[allow(clippy::only_used_in_recursion)]
+    fn check_recursion(
+        &self,
+        active: &mut Vec<usize>,
+        done: &mut HashSet<usize>,
+        patt: &model::Pattern,
+    ) -> Result<(), RelaxError> {
+        match patt {
+            Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => {
+                for p in v {
+                    self.check_recursion(active, done, p)?
+                }
+            }
+            Pattern::Mixed(p)
+            | Pattern::Optional(p)
+            | Pattern::ZeroOrMore(p)
+            | Pattern::OneOrMore(p)
+            | Pattern::Attribute(_, p)
+            | Pattern::List(p) => self.check_recursion(active, done, p)?,
+            Pattern::Element(_, _)
+            | Pattern::Empty
+            | Pattern::Text
+            | Pattern::NotAllowed
+            | Pattern::DatatypeValue { .. } => {}
+            Pattern::Ref(span, name, def) => {
+                let ptr = def.0.as_ptr() as usize;
+                if let Some(rule) = def.0.borrow().as_ref() {
+                    if active.contains(&ptr) {
+                        return Err(RelaxError::RecursiveReference {
+                            ref_id: name.to_string(),
+                            ref_span: *span,
+                            def_id: name.to_string(),
+                            def_span: *rule.span(),
+                        });
+                    }
+                    if done.insert(ptr) {
+                        active.push(ptr);
+                        self.check_recursion(active, done, rule.pattern())?;
+                        active.pop();
+                    }
+                }
+            }
+            Pattern::DatatypeName { except, .. } => {
+                if let Some(e) = except.as_ref() {
+                    self.check_recursion(active, done, e)?;
+                }
+            }
+        }
+        Ok(())
+    }
+
     pub fn dump_diagnostic(&self, err: &RelaxError) {
         let mut emitter = codemap_diagnostic::Emitter::stderr(
             codemap_diagnostic::ColorConfig::Always,
-- 
2.43.0


From 08bc009a43e27905a1145dafacd2c5f4f521e0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 13/80] fix: report elements in a grammar within an attribute

---
 relaxng-model/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 8901564..8375449 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -631,9 +631,10 @@ impl<'a> Context<'a> {
     // attribute, and None otherwise
     fn parent_attribute(&self) -> Option<codemap::Span> {
         match self {
-            Context::Root { .. } | Context::Grammar { .. } => None,
+            Context::Root { .. } => None,
             Context::Attribute { span, .. } => Some(*span),
             Context::Include { parent, .. }
+            | Context::Grammar { parent, .. }
             | Context::IncludeOverrides { parent }
             | Context::Define { parent, .. }
             | Context::Element { parent } => parent.parent_attribute(),
-- 
2.43.0


From 12db4b5a98d38fc0e1a4df4488ea559aa8c74ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 14/80] fix: interpret names in the overrides of an include as
 in the including file

---
 relaxng-model/src/lib.rs | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 8375449..dd4311a 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -303,18 +303,21 @@ impl<'a> Context<'a> {
         Context::Attribute { parent: self, span }
     }
 
+    /// The context of the file which has the include, to which the overrides of that include belong
+    fn includer(&self) -> &'a Context<'a> {
+        if let Context::Include { parent, .. } = self {
+            parent
+        } else {
+            unreachable!(
+                "Should not be possible for Context::IncludeOverrides to have parent other than Context::Include"
+            )
+        }
+    }
+
     fn file(&self) -> Arc<codemap::File> {
         match self {
             Context::Root { file, .. } | Context::Include { file, .. } => file.clone(),
-            Context::IncludeOverrides { parent, .. } => {
-                if let Context::Include { parent, .. } = parent {
-                    parent.file()
-                } else {
-                    unreachable!(
-                        "Should not be possible for Context::IncludeOverrides to have parent other than Context::Include"
-                    )
-                }
-            }
+            Context::IncludeOverrides { parent, .. } => parent.includer().file(),
             Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
@@ -337,8 +340,8 @@ impl<'a> Context<'a> {
             | Context::Include {
                 default_namespace, ..
             } => &default_namespace[..],
-            Context::IncludeOverrides { parent, .. }
-            | Context::Grammar { parent, .. }
+            Context::IncludeOverrides { parent } => parent.includer().default_namespace_uri(),
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.default_namespace_uri(),
@@ -399,8 +402,10 @@ impl<'a> Context<'a> {
             Context::Root { namespaces, .. } | Context::Include { namespaces, .. } => {
                 namespaces.get(prefix).map(|s| &s[..])
             }
-            Context::IncludeOverrides { parent, .. }
-            | Context::Grammar { parent, .. }
+            Context::IncludeOverrides { parent } => {
+                parent.includer().namespace_uri_for_prefix_str(prefix)
+            }
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.namespace_uri_for_prefix_str(prefix),
@@ -453,8 +458,10 @@ impl<'a> Context<'a> {
                     parent.datatype_uri_for_prefix(prefix)
                 }
             }
-            Context::IncludeOverrides { parent }
-            | Context::Grammar { parent, .. }
+            Context::IncludeOverrides { parent } => {
+                parent.includer().datatype_uri_for_prefix(prefix)
+            }
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.datatype_uri_for_prefix(prefix),
-- 
2.43.0


From f532c9941791c7663020874add53b7e936ff01c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 15/80] fix: do not use the datatype prefixes of the including
 file in an included file

---
 relaxng-model/src/lib.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index dd4311a..2619b02 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -445,19 +445,10 @@ impl<'a> Context<'a> {
 
     fn datatype_uri_for_prefix(&self, prefix: &str) -> Option<&str> {
         match self {
-            Context::Root { datatypes, .. } => {
+            Context::Root { datatypes, .. } | Context::Include { datatypes, .. } => {
                 // TODO: return Option, and have caller work out RelaxError value
                 datatypes.get(prefix).map(|s| &s[..])
             }
-            Context::Include {
-                parent, datatypes, ..
-            } => {
-                if let Some(uri) = datatypes.get(prefix).map(|s| &s[..]) {
-                    Some(uri)
-                } else {
-                    parent.datatype_uri_for_prefix(prefix)
-                }
-            }
             Context::IncludeOverrides { parent } => {
                 parent.includer().datatype_uri_for_prefix(prefix)
             }
-- 
2.43.0


From 24bcac2f0c08acad9f6cc326d4d8381a675a78eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 16/80] fix: support div and several definitions of a name in
 the overrides of an include

---
 relaxng-model/src/lib.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 2619b02..6f089d3 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -491,14 +491,10 @@ impl<'a> Context<'a> {
                 } = parent
                 {
                     let mut overrides = overrides.borrow_mut();
-                    if overrides.contains_key(id) {
-                        // TODO: return Err, not panic
-                        panic!("TODO: redefined override {id:?}")
-                    } else {
-                        overrides.insert(id.to_string(), (*rule.span(), false));
-                        parant_of_include.define(id, rule)?;
-                    };
-                    Ok(())
+                    overrides
+                        .entry(id.to_string())
+                        .or_insert((*rule.span(), false));
+                    parant_of_include.define(id, rule)
                 } else {
                     unreachable!(
                         "Should not be possible for Context::IncludeOverrides to have parent other than Context::Include"
@@ -1360,10 +1356,17 @@ impl<FS: Files> Compiler<FS> {
     }
     fn compile_include_div(
         &mut self,
-        _ctx: &mut Context,
-        _div: &[types::IncludeContent],
+        ctx: &mut Context,
+        div: &[types::IncludeContent],
     ) -> Result<(), RelaxError> {
-        unimplemented!()
+        for item in div {
+            match item {
+                types::IncludeContent::Define(d) => self.compile_define(ctx, d)?,
+                types::IncludeContent::Div(d) => self.compile_include_div(ctx, d)?,
+                types::IncludeContent::Annotation(_) => (),
+            }
+        }
+        Ok(())
     }
     fn compile_include(
         &mut self,
-- 
2.43.0


From a38e7feb4c7f89eec4cc0eb82fb98ac05dc274d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 17/80] fix: apply the declarations of external files, and
 interpret their grammars in their own context

---
 relaxng-model/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 6f089d3..b7633a3 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1692,15 +1692,20 @@ impl<FS: Files> Compiler<FS> {
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
         let file_span = file.span;
         let mut inc_ctx = ctx.new_include(span, file)?;
+        for dec in s.decls.iter() {
+            self.compile_declaration(&mut inc_ctx, dec)
+                .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
+        }
 
         match &s.pattern_or_grammar {
             types::PatternOrGrammar::Pattern(pat) => self
                 .compile_pattern(&mut inc_ctx, pat)
                 .map_err(|e| RelaxError::IncludeError(span, Box::new(e))),
             types::PatternOrGrammar::Grammar(types::GrammarPattern { span: _, content }) => {
-                let mut child_ctx = ctx.new_grammar();
+                let mut child_ctx = inc_ctx.new_grammar();
                 for g in content {
-                    self.compile_grammar_content_item(&mut child_ctx, g)?;
+                    self.compile_grammar_content_item(&mut child_ctx, g)
+                        .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
                 }
                 for (name, r) in child_ctx.ref_iter() {
                     if r.borrow().is_none() {
-- 
2.43.0


From c4f443af1aef8e929ca3a441d6cf5da1049a2801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 18/80] fix: let included and external files inherit a
 namespace

---
 relaxng-model/src/lib.rs | 73 +++++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 20 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index b7633a3..c6fb49a 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -184,6 +184,7 @@ enum Context<'a> {
         overrides: RefCell<HashMap<String, (codemap::Span, bool)>>,
         namespaces: HashMap<String, String>,
         default_namespace: String,
+        inherited_namespace: String,
         datatypes: HashMap<String, String>,
     },
     IncludeOverrides {
@@ -239,6 +240,7 @@ impl<'a> Context<'a> {
         &self,
         span: codemap::Span,
         file: Arc<codemap::File>,
+        inherited_namespace: String,
     ) -> Result<Context<'_>, RelaxError> {
         self.check_include(span, file.clone())?;
         let mut namespaces = HashMap::new();
@@ -256,7 +258,8 @@ impl<'a> Context<'a> {
             file,
             overrides: RefCell::new(HashMap::new()),
             namespaces,
-            default_namespace: "".to_string(),
+            default_namespace: inherited_namespace.clone(),
+            inherited_namespace,
             datatypes,
         })
     }
@@ -348,6 +351,43 @@ impl<'a> Context<'a> {
         }
     }
 
+    /// The namespace which this file is to inherit from the file which includes it
+    fn inherited_namespace_uri(&self) -> &str {
+        match self {
+            Context::Root { .. } => "",
+            Context::Include {
+                inherited_namespace,
+                ..
+            } => inherited_namespace,
+            Context::IncludeOverrides { parent } => parent.includer().inherited_namespace_uri(),
+            Context::Grammar { parent, .. }
+            | Context::Define { parent, .. }
+            | Context::Element { parent }
+            | Context::Attribute { parent, .. } => parent.inherited_namespace_uri(),
+        }
+    }
+
+    /// The namespace to be inherited by a file that's included or referenced from this context:
+    /// that of the given prefix, or else the default namespace
+    fn namespace_uri_to_inherit(
+        &self,
+        inherit: &Option<types::Inherit>,
+    ) -> Result<String, RelaxError> {
+        match inherit {
+            Some(types::Inherit(id)) => {
+                let prefix = id.to_string();
+                match self.namespace_uri_for_prefix_str(&prefix) {
+                    Some(uri) => Ok(uri.to_string()),
+                    None => Err(RelaxError::UndefinedNamespacePrefix {
+                        span: self.convert_span(&id.span()),
+                        prefix,
+                    }),
+                }
+            }
+            None => Ok(self.default_namespace_uri().to_string()),
+        }
+    }
+
     fn set_default_namespace_uri(&mut self, uri: String) {
         match self {
             Context::Root {
@@ -1387,19 +1427,8 @@ impl<FS: Files> Compiler<FS> {
         // TODO: get the span of the grammar in the file, rather than the span of the whole file
         let include_span = file.span;
 
-        let mut inc_ctx = ctx.new_include(span, file)?;
-
-        if let Some(ref inherit) = inc.1 {
-            let prefix = inherit.0.to_string();
-            let namespace_uri = ctx
-                .namespace_uri_for_prefix_str(&prefix)
-                .ok_or_else(|| RelaxError::UndefinedNamespacePrefix {
-                    span: ctx.convert_span(&inherit.0.span()),
-                    prefix: prefix.clone(),
-                })?
-                .to_string();
-            inc_ctx.declare_namespace(prefix, namespace_uri)?;
-        }
+        let inherited = ctx.namespace_uri_to_inherit(&inc.1)?;
+        let mut inc_ctx = ctx.new_include(span, file, inherited)?;
 
         // replace any definitions for which the including file provides an override
         if let Some(ref overrides) = inc.2 {
@@ -1679,9 +1708,6 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         external: &types::ExternalPattern,
     ) -> Result<model::Pattern, RelaxError> {
-        if external.1.is_some() {
-            unimplemented!("inherit");
-        }
         let path = Path::new(ctx.file().name())
             .parent()
             .expect("TODO: no parent?")
@@ -1691,7 +1717,8 @@ impl<FS: Files> Compiler<FS> {
             .get_schema(&path)
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
         let file_span = file.span;
-        let mut inc_ctx = ctx.new_include(span, file)?;
+        let inherited = ctx.namespace_uri_to_inherit(&external.1)?;
+        let mut inc_ctx = ctx.new_include(span, file, inherited)?;
         for dec in s.decls.iter() {
             self.compile_declaration(&mut inc_ctx, dec)
                 .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
@@ -1927,7 +1954,12 @@ impl<FS: Files> Compiler<FS> {
             types::Decl::DefaultNamespace(types::DefaultNamespaceDeclaration { prefix, uri }) => {
                 match uri {
                     NamespaceUriLiteral::Inherit => {
-                        panic!("Can't inherit namespace {prefix:?} at top level, I think?")
+                        let uri = ctx.inherited_namespace_uri().to_string();
+                        ctx.set_default_namespace_uri(uri.clone());
+                        match prefix {
+                            Some(p) => ctx.declare_namespace(p.clone(), uri),
+                            None => Ok(()),
+                        }
                     }
                     NamespaceUriLiteral::Uri(uri) => {
                         ctx.set_default_namespace_uri(uri.as_string_value());
@@ -1941,7 +1973,8 @@ impl<FS: Files> Compiler<FS> {
             }
             types::Decl::Namespace(types::NamespaceDeclaration { prefix, uri }) => match uri {
                 NamespaceUriLiteral::Inherit => {
-                    panic!("Can't inherit namespace {prefix:?} at top level, I think?")
+                    let uri = ctx.inherited_namespace_uri().to_string();
+                    ctx.declare_namespace(prefix.clone(), uri)
                 }
                 NamespaceUriLiteral::Uri(uri) => {
                     ctx.declare_namespace(prefix.clone(), uri.as_string_value())
-- 
2.43.0


From 2799e6d7c6302c2b900a7e22e7ec07ad15bbd833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 19/80] fix: detect a file which includes itself, whatever path
 it uses

---
 relaxng-model/src/lib.rs | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index c6fb49a..c7baa91 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -16,7 +16,7 @@ use std::fs::File;
 use std::io;
 use std::io::Read;
 use std::ops::Range;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::rc::Rc;
 use std::sync::Arc;
 
@@ -328,6 +328,24 @@ impl<'a> Context<'a> {
         }
     }
 
+    /// Resolves a reference to another file relative to the current file, without leaving any
+    /// redundant `..` components in the result, so that there's only one name for each file.
+    fn resolve_href(&self, href: &str) -> PathBuf {
+        let file = self.file();
+        let base = Path::new(file.name()).parent().unwrap_or(Path::new(""));
+        let mut path = PathBuf::new();
+        for component in base.join(href).components() {
+            match (component, path.components().next_back()) {
+                (Component::CurDir, _) => {}
+                (Component::ParentDir, Some(Component::Normal(_))) => {
+                    path.pop();
+                }
+                _ => path.push(component),
+            }
+        }
+        path
+    }
+
     /// Utility to convert a simple Span from the relaxng-compact-syntax model into the specialised
     /// Span type that we use for diagnostics
     fn convert_span(&self, span: &model::Span) -> codemap::Span {
@@ -681,7 +699,15 @@ impl<'a> Context<'a> {
         this_file: Arc<codemap::File>,
     ) -> Result<(), RelaxError> {
         match self {
-            Context::Root { .. } => Ok(()),
+            Context::Root { file, .. } => {
+                if this_file.name() == file.name() {
+                    return Err(RelaxError::RecursiveInclude {
+                        name: this_file.name().to_string(),
+                        span,
+                    });
+                }
+                Ok(())
+            }
             Context::Grammar { parent, .. }
             | Context::IncludeOverrides { parent }
             | Context::Define { parent, .. }
@@ -1413,10 +1439,7 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         inc: &types::Include,
     ) -> Result<(), RelaxError> {
-        let path = Path::new(ctx.file().name())
-            .parent()
-            .expect("TODO: no parent?")
-            .join(inc.0.as_string_value());
+        let path = ctx.resolve_href(&inc.0.as_string_value());
         let span = ctx
             .file()
             .span
@@ -1708,10 +1731,7 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         external: &types::ExternalPattern,
     ) -> Result<model::Pattern, RelaxError> {
-        let path = Path::new(ctx.file().name())
-            .parent()
-            .expect("TODO: no parent?")
-            .join(external.0.as_string_value());
+        let path = ctx.resolve_href(&external.0.as_string_value());
         let span = ctx.convert_span(&(external.0).0);
         let (file, s) = self
             .get_schema(&path)
-- 
2.43.0


From c279772dfb7a9f7a416c371c23fef16312cfb93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 20/80] fix: do not panic when rendering some errors, and
 accept declaring the prefix xsd

---
 relaxng-model/src/lib.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index c7baa91..a597ee9 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -474,6 +474,8 @@ impl<'a> Context<'a> {
         match self {
             Context::Root { datatypes, .. } | Context::Include { datatypes, .. } => {
                 match datatypes.entry(prefix) {
+                    // the prefix 'xsd' is predeclared, but may be declared again
+                    Entry::Occupied(e) if e.key() == "xsd" && *e.get() == uri => Ok(()),
                     Entry::Occupied(e) => {
                         Err(RelaxError::DatatypePrefixAlreadyDefined(e.key().clone()))
                     }
@@ -993,7 +995,19 @@ impl<FS: Files> Compiler<FS> {
                         spans: vec![label],
                     }
                 }
-                _ => panic!("{err:?}"),
+                relaxng_syntax::xml::Error::Todo(msg) => {
+                    let label = codemap_diagnostic::SpanLabel {
+                        span: *span,
+                        style: codemap_diagnostic::SpanStyle::Primary,
+                        label: None,
+                    };
+                    codemap_diagnostic::Diagnostic {
+                        level: codemap_diagnostic::Level::Error,
+                        message: format!("Unsupported schema: {msg}"),
+                        code: None,
+                        spans: vec![label],
+                    }
+                }
             },
             RelaxError::UndefinedNamespacePrefix { span, prefix } => {
                 let label = codemap_diagnostic::SpanLabel {
@@ -1056,9 +1070,7 @@ impl<FS: Files> Compiler<FS> {
                     XsdDatatypeError::Facet { type_name, facet } => {
                         let mut labels = vec![];
                         match facet {
-                            FacetError::ConflictingFacet(_name) => {
-                                unimplemented!("Support for ConflictingFacet")
-                            }
+                            FacetError::ConflictingFacet(_name) => {}
                             FacetError::InvalidInt(span, msg) => {
                                 labels.push(codemap_diagnostic::SpanLabel {
                                     span: *span,
@@ -1088,9 +1100,15 @@ impl<FS: Files> Compiler<FS> {
                                 })
                             }
                         }
+                        let message = match facet {
+                            FacetError::ConflictingFacet(name) => {
+                                format!("Conflicting {name} facet for {type_name} type")
+                            }
+                            _ => format!("Problematic facet for {type_name} type"),
+                        };
                         codemap_diagnostic::Diagnostic {
                             level: codemap_diagnostic::Level::Error,
-                            message: format!("Problematic facet for {type_name} type"),
+                            message,
                             code: None,
                             spans: labels,
                         }
@@ -1293,6 +1311,12 @@ impl<FS: Files> Compiler<FS> {
                     spans: vec![override_label, include_label],
                 }
             }
+            RelaxError::DatatypePrefixAlreadyDefined(prefix) => codemap_diagnostic::Diagnostic {
+                level: codemap_diagnostic::Level::Error,
+                message: format!("The datatype prefix {prefix:?} is already defined"),
+                code: None,
+                spans: vec![],
+            },
             RelaxError::Parse(span, _kind) => {
                 let label = codemap_diagnostic::SpanLabel {
                     span: *span,
-- 
2.43.0


From 484b084edd87520a20ca49fb4237b3c7b266f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 21/80] fix: validate the types token, NMTOKEN and NMTOKENS,
 and let all string types take a pattern

---
 relaxng-model/src/datatype/xsd.rs | 74 ++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 22 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 4316cb1..ae47573 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -54,10 +54,10 @@ pub enum XsdDatatypes {
         total_digits: Option<u16>,
     },
     Double(Option<PatternFacet>),
-    NmTokens(LengthFacet),
-    NmToken(LengthFacet),
-    NcName(LengthFacet),
-    Token(LengthFacet),
+    NmTokens(StringFacets),
+    NmToken(StringFacets),
+    NcName(StringFacets),
+    Token(StringFacets),
     Duration(Option<PatternFacet>),
     Date(Option<PatternFacet>),
     Datetime(Option<PatternFacet>),
@@ -122,16 +122,27 @@ impl super::Datatype for XsdDatatypes {
                     .is_some_and(|v| min_max.is_valid(&v))
                     && pat.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
-            XsdDatatypes::NmTokens(_len) => {
-                unimplemented!()
+            XsdDatatypes::NmTokens(str_facets) => {
+                let normal_val = normalize_whitespace(value);
+                let mut tokens = 0;
+                for token in normal_val.split(' ') {
+                    if !is_valid_nmtoken(token) {
+                        return false;
+                    }
+                    tokens += 1;
+                }
+                // the length of a list is the number of its items
+                str_facets.len.is_valid_len(tokens) && str_facets.is_pattern_valid(&normal_val)
             }
-            XsdDatatypes::NmToken(_len) => {
-                unimplemented!()
+            XsdDatatypes::NmToken(str_facets) => {
+                let normal_val = normalize_whitespace(value);
+                str_facets.is_valid(&normal_val) && is_valid_nmtoken(&normal_val)
             }
-            XsdDatatypes::NcName(len) => len.is_valid(value) && is_valid_ncname(value),
-            XsdDatatypes::Token(_len) => {
-                unimplemented!()
+            XsdDatatypes::NcName(str_facets) => {
+                let normal_val = normalize_whitespace(value);
+                str_facets.is_valid(&normal_val) && is_valid_ncname(&normal_val)
             }
+            XsdDatatypes::Token(str_facets) => str_facets.is_valid(&normalize_whitespace(value)),
             XsdDatatypes::Duration(patt) => {
                 DURATION_RE.is_match(value)
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
@@ -185,6 +196,11 @@ fn is_valid_ncname(text: &str) -> bool {
     }
 }
 
+fn is_valid_nmtoken(text: &str) -> bool {
+    // any name character may follow the first one of a name
+    !text.is_empty() && is_valid_ncname(&format!("_{}", text.replace(':', "")))
+}
+
 #[derive(PartialEq, Eq, Hash, Clone, Debug)]
 pub struct StringFacets {
     len: LengthFacet,
@@ -192,12 +208,15 @@ pub struct StringFacets {
 }
 impl StringFacets {
     fn is_valid(&self, value: &str) -> bool {
-        self.len.is_valid(value)
-            && if let Some(ref pat) = self.pattern {
-                pat.is_valid(value)
-            } else {
-                true
-            }
+        self.len.is_valid(value) && self.is_pattern_valid(value)
+    }
+
+    fn is_pattern_valid(&self, value: &str) -> bool {
+        if let Some(ref pat) = self.pattern {
+            pat.is_valid(value)
+        } else {
+            true
+        }
     }
 
     pub fn bounded(&self) -> bool {
@@ -263,7 +282,10 @@ pub enum LengthFacet {
 }
 impl LengthFacet {
     fn is_valid(&self, value: &str) -> bool {
-        let actual = value.chars().count();
+        self.is_valid_len(value.chars().count())
+    }
+
+    fn is_valid_len(&self, actual: usize) -> bool {
         match self {
             LengthFacet::Unbounded => true,
             LengthFacet::MinLength(min) => *min <= actual,
@@ -1037,12 +1059,14 @@ impl Compiler {
 
     fn nmtokens(&self, ctx: &Context, params: &[types::Param]) -> Result<XsdDatatypes, FacetError> {
         let mut len = LengthFacet::Unbounded;
+        let mut pattern = None;
 
         for param in params {
             match &param.2.to_string()[..] {
                 "length" => len.merge(LengthFacet::Length(Self::usize(ctx, param)?))?,
                 "minLength" => len.merge(LengthFacet::MinLength(Self::usize(ctx, param)?))?,
                 "maxLength" => len.merge(LengthFacet::MaxLength(Self::usize(ctx, param)?))?,
+                "pattern" => pattern = Some(self.pattern(ctx, param)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1052,17 +1076,19 @@ impl Compiler {
             }
         }
 
-        Ok(XsdDatatypes::NmTokens(len))
+        Ok(XsdDatatypes::NmTokens(StringFacets { len, pattern }))
     }
 
     fn nmtoken(&self, ctx: &Context, params: &[types::Param]) -> Result<XsdDatatypes, FacetError> {
         let mut len = LengthFacet::Unbounded;
+        let mut pattern = None;
 
         for param in params {
             match &param.2.to_string()[..] {
                 "length" => len.merge(LengthFacet::Length(Self::usize(ctx, param)?))?,
                 "minLength" => len.merge(LengthFacet::MinLength(Self::usize(ctx, param)?))?,
                 "maxLength" => len.merge(LengthFacet::MaxLength(Self::usize(ctx, param)?))?,
+                "pattern" => pattern = Some(self.pattern(ctx, param)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1072,17 +1098,19 @@ impl Compiler {
             }
         }
 
-        Ok(XsdDatatypes::NmToken(len))
+        Ok(XsdDatatypes::NmToken(StringFacets { len, pattern }))
     }
 
     fn ncname(&self, ctx: &Context, params: &[types::Param]) -> Result<XsdDatatypes, FacetError> {
         let mut len = LengthFacet::Unbounded;
+        let mut pattern = None;
 
         for param in params {
             match &param.2.to_string()[..] {
                 "length" => len.merge(LengthFacet::Length(Self::usize(ctx, param)?))?,
                 "minLength" => len.merge(LengthFacet::MinLength(Self::usize(ctx, param)?))?,
                 "maxLength" => len.merge(LengthFacet::MaxLength(Self::usize(ctx, param)?))?,
+                "pattern" => pattern = Some(self.pattern(ctx, param)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1092,17 +1120,19 @@ impl Compiler {
             }
         }
 
-        Ok(XsdDatatypes::NcName(len))
+        Ok(XsdDatatypes::NcName(StringFacets { len, pattern }))
     }
 
     fn token(&self, ctx: &Context, params: &[types::Param]) -> Result<XsdDatatypes, FacetError> {
         let mut len = LengthFacet::Unbounded;
+        let mut pattern = None;
 
         for param in params {
             match &param.2.to_string()[..] {
                 "length" => len.merge(LengthFacet::Length(Self::usize(ctx, param)?))?,
                 "minLength" => len.merge(LengthFacet::MinLength(Self::usize(ctx, param)?))?,
                 "maxLength" => len.merge(LengthFacet::MaxLength(Self::usize(ctx, param)?))?,
+                "pattern" => pattern = Some(self.pattern(ctx, param)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1112,7 +1142,7 @@ impl Compiler {
             }
         }
 
-        Ok(XsdDatatypes::Token(len))
+        Ok(XsdDatatypes::Token(StringFacets { len, pattern }))
     }
 
     fn duration(&self, ctx: &Context, params: &[types::Param]) -> Result<XsdDatatypes, FacetError> {
-- 
2.43.0


From f32dd6c193a56f6dfdd26b7900cb22c32b904aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 22/80] fix: match the pattern facet against the whole value

---
 relaxng-model/src/datatype/xsd.rs | 43 +++++++++++++++++--------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index ae47573..2e9c177 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -79,37 +79,37 @@ impl super::Datatype for XsdDatatypes {
                 i16::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::UnsignedShort(min_max, patt) => {
                 u16::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Long(min_max, patt) => {
                 i64::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Int(min_max, patt) => {
                 i32::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Integer(min_max, patt) => {
                 num_bigint::BigInt::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::PositiveInteger(min_max, patt) => {
                 num_bigint::BigUint::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Decimal {
                 min_max,
@@ -120,7 +120,7 @@ impl super::Datatype for XsdDatatypes {
                 bigdecimal::BigDecimal::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && pat.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && pat.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::NmTokens(str_facets) => {
                 let normal_val = normalize_whitespace(value);
@@ -145,46 +145,46 @@ impl super::Datatype for XsdDatatypes {
             XsdDatatypes::Token(str_facets) => str_facets.is_valid(&normalize_whitespace(value)),
             XsdDatatypes::Duration(patt) => {
                 DURATION_RE.is_match(value)
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Date(patt) => {
                 chrono::NaiveDate::parse_from_str(value, "%Y-%m-%d").is_ok()
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Datetime(patt) => {
                 DATETIME_RE.is_match(value)
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Double(patt) => {
                 value.parse::<f64>().is_ok()
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::AnyURI(patt) => {
                 uriparse::URIReference::try_from(value).is_ok()
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Language(patt) => {
                 LANG_RE.is_match(value)
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Boolean(patt) => {
                 (value == "true" || value == "false" || value == "1" || value == "0")
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::UnsignedInt(min_max, patt) => {
                 u32::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::UnsignedLong(min_max, patt) => {
                 u64::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
-            XsdDatatypes::Id(patt) => patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true),
-            XsdDatatypes::IdRef(patt) => patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true),
+            XsdDatatypes::Id(patt) => patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true),
+            XsdDatatypes::IdRef(patt) => patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true),
         }
     }
 }
@@ -1467,8 +1467,11 @@ impl Compiler {
     }
 
     fn pattern(&self, ctx: &Context, param: &types::Param) -> Result<PatternFacet, FacetError> {
-        regex::Regex::new(&param.3.as_string_value())
-            .map(|re| PatternFacet(param.3.as_string_value(), re))
+        let pattern = param.3.as_string_value();
+        regex::Regex::new(&pattern)
+            // the pattern must match the whole value, rather than some part of it
+            .and_then(|_| regex::Regex::new(&format!(r"\A(?:{pattern})\z")))
+            .map(|re| PatternFacet(pattern, re))
             .map_err(|e| FacetError::InvalidPattern(ctx.convert_span(&param.0), e))
     }
 }
-- 
2.43.0


From cd3681790053cdaa67171de4e7f44851d0ef1292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 23/80] fix: process the white space of XSD values as their
 type demands

---
 relaxng-model/src/datatype/xsd.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 2e9c177..f98cff5 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -69,9 +69,16 @@ pub enum XsdDatatypes {
 }
 impl super::Datatype for XsdDatatypes {
     fn is_valid(&self, value: &str) -> bool {
+        // white space is preserved by 'string', replaced by 'normalizedString', and collapsed by
+        // all other types
+        let collapsed = normalize_whitespace(value);
+        let value = match self {
+            XsdDatatypes::String(_) | XsdDatatypes::NormalizedString(_) => value,
+            _ => &collapsed[..],
+        };
         match self {
             XsdDatatypes::NormalizedString(str_facets) => {
-                let normal_val = super::relax::normalize_whitespace(value);
+                let normal_val = value.replace(['\t', '\n', '\r'], " ");
                 str_facets.is_valid(&normal_val)
             }
             XsdDatatypes::String(str_facets) => str_facets.is_valid(value),
@@ -123,26 +130,23 @@ impl super::Datatype for XsdDatatypes {
                     && pat.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::NmTokens(str_facets) => {
-                let normal_val = normalize_whitespace(value);
                 let mut tokens = 0;
-                for token in normal_val.split(' ') {
+                for token in value.split(' ') {
                     if !is_valid_nmtoken(token) {
                         return false;
                     }
                     tokens += 1;
                 }
                 // the length of a list is the number of its items
-                str_facets.len.is_valid_len(tokens) && str_facets.is_pattern_valid(&normal_val)
+                str_facets.len.is_valid_len(tokens) && str_facets.is_pattern_valid(value)
             }
             XsdDatatypes::NmToken(str_facets) => {
-                let normal_val = normalize_whitespace(value);
-                str_facets.is_valid(&normal_val) && is_valid_nmtoken(&normal_val)
+                str_facets.is_valid(value) && is_valid_nmtoken(value)
             }
             XsdDatatypes::NcName(str_facets) => {
-                let normal_val = normalize_whitespace(value);
-                str_facets.is_valid(&normal_val) && is_valid_ncname(&normal_val)
+                str_facets.is_valid(value) && is_valid_ncname(value)
             }
-            XsdDatatypes::Token(str_facets) => str_facets.is_valid(&normalize_whitespace(value)),
+            XsdDatatypes::Token(str_facets) => str_facets.is_valid(value),
             XsdDatatypes::Duration(patt) => {
                 DURATION_RE.is_match(value)
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
@@ -164,8 +168,7 @@ impl super::Datatype for XsdDatatypes {
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Language(patt) => {
-                LANG_RE.is_match(value)
-                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
+                LANG_RE.is_match(value) && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Boolean(patt) => {
                 (value == "true" || value == "false" || value == "1" || value == "0")
-- 
2.43.0


From 7e693c44cac889eb8f8f989e11988f76c1486f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 24/80] fix: accept exactly the notations of XML Schema for
 integers, decimals and doubles

---
 relaxng-model/src/datatype/xsd.rs | 73 ++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index f98cff5..fa4ef76 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -107,15 +107,15 @@ impl super::Datatype for XsdDatatypes {
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Integer(min_max, patt) => {
-                num_bigint::BigInt::from_str(value)
+                parse_integer::<num_bigint::BigInt>(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::PositiveInteger(min_max, patt) => {
-                num_bigint::BigUint::from_str(value)
+                parse_integer::<num_bigint::BigUint>(value)
                     .ok()
-                    .is_some_and(|v| min_max.is_valid(&v))
+                    .is_some_and(|v| v > num_bigint::BigUint::ZERO && min_max.is_valid(&v))
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Decimal {
@@ -124,7 +124,7 @@ impl super::Datatype for XsdDatatypes {
                 fraction_digits: _,
                 total_digits: _,
             } => {
-                bigdecimal::BigDecimal::from_str(value)
+                parse_decimal(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
                     && pat.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
@@ -160,7 +160,7 @@ impl super::Datatype for XsdDatatypes {
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Double(patt) => {
-                value.parse::<f64>().is_ok()
+                (matches!(value, "INF" | "-INF" | "NaN") || parse_double(value).is_ok())
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::AnyURI(patt) => {
@@ -192,6 +192,34 @@ impl super::Datatype for XsdDatatypes {
     }
 }
 
+// The libraries' parsers also allow digits to be separated by '_', exponents in decimal numbers, and
+// names of infinity and NaN other than those of XML Schema.  These functions hide such notations
+// from them.
+
+fn parse_integer<T: FromStr>(text: &str) -> Result<T, T::Err> {
+    if text.contains('_') {
+        T::from_str("")
+    } else {
+        T::from_str(text)
+    }
+}
+
+fn parse_decimal(text: &str) -> Result<bigdecimal::BigDecimal, bigdecimal::ParseBigDecimalError> {
+    if text.contains(['_', 'e', 'E']) {
+        bigdecimal::BigDecimal::from_str("")
+    } else {
+        bigdecimal::BigDecimal::from_str(text)
+    }
+}
+
+fn parse_double(text: &str) -> Result<f64, std::num::ParseFloatError> {
+    if text.contains(|c: char| c.is_ascii_alphabetic() && c != 'e' && c != 'E') {
+        f64::from_str("")
+    } else {
+        f64::from_str(text)
+    }
+}
+
 fn is_valid_ncname(text: &str) -> bool {
     match relaxng_syntax::compact::nc_name(relaxng_syntax::compact::Span::new(text)) {
         Ok((rest, _name)) => rest.fragment().is_empty(),
@@ -1407,10 +1435,7 @@ impl Compiler {
     }
 
     fn f64(ctx: &Context, param: &types::Param) -> Result<f64, FacetError> {
-        param
-            .3
-            .as_string_value()
-            .parse()
+        parse_double(&param.3.as_string_value())
             .map_err(|e: std::num::ParseFloatError| {
                 FacetError::InvalidFloat(ctx.convert_span(&param.0), e.to_string())
             })
@@ -1427,36 +1452,24 @@ impl Compiler {
     }
 
     fn bigint(ctx: &Context, param: &types::Param) -> Result<num_bigint::BigInt, FacetError> {
-        param
-            .3
-            .as_string_value()
-            .parse()
-            .map_err(|e: num_bigint::ParseBigIntError| {
-                FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
-            })
+        parse_integer(&param.3.as_string_value()).map_err(|e: num_bigint::ParseBigIntError| {
+            FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
+        })
     }
 
     fn biguint(ctx: &Context, param: &types::Param) -> Result<num_bigint::BigUint, FacetError> {
-        param
-            .3
-            .as_string_value()
-            .parse()
-            .map_err(|e: num_bigint::ParseBigIntError| {
-                FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
-            })
+        parse_integer(&param.3.as_string_value()).map_err(|e: num_bigint::ParseBigIntError| {
+            FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
+        })
     }
 
     fn bigdecimal(
         ctx: &Context,
         param: &types::Param,
     ) -> Result<bigdecimal::BigDecimal, FacetError> {
-        param
-            .3
-            .as_string_value()
-            .parse()
-            .map_err(|e: bigdecimal::ParseBigDecimalError| {
-                FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
-            })
+        parse_decimal(&param.3.as_string_value()).map_err(|e: bigdecimal::ParseBigDecimalError| {
+            FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
+        })
     }
 
     fn usize(ctx: &Context, param: &types::Param) -> Result<usize, FacetError> {
-- 
2.43.0


From f66db686c427a371ad155de334f65439fa9384ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 25/80] fix: apply totalDigits and fractionDigits of decimal,
 and the bounds of double

---
 relaxng-model/src/datatype/xsd.rs | 49 ++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index fa4ef76..13703b2 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -53,7 +53,7 @@ pub enum XsdDatatypes {
         fraction_digits: Option<u16>,
         total_digits: Option<u16>,
     },
-    Double(Option<PatternFacet>),
+    Double(MinMaxFacet<Double>, Option<PatternFacet>),
     NmTokens(StringFacets),
     NmToken(StringFacets),
     NcName(StringFacets),
@@ -121,13 +121,17 @@ impl super::Datatype for XsdDatatypes {
             XsdDatatypes::Decimal {
                 min_max,
                 pattern: pat,
-                fraction_digits: _,
-                total_digits: _,
+                fraction_digits,
+                total_digits,
             } => {
-                parse_decimal(value)
-                    .ok()
-                    .is_some_and(|v| min_max.is_valid(&v))
-                    && pat.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
+                parse_decimal(value).ok().is_some_and(|v| {
+                    // neither the digits nor the fraction end with zeros here,
+                    let (digits, scale) = v.normalized().into_bigint_and_exponent();
+                    let total = digits.magnitude().to_string().len() as i64 + (-scale).max(0);
+                    min_max.is_valid(&v)
+                        && fraction_digits.is_none_or(|max| scale <= i64::from(max))
+                        && total_digits.is_none_or(|max| total.max(scale) <= i64::from(max))
+                }) && pat.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::NmTokens(str_facets) => {
                 let mut tokens = 0;
@@ -159,8 +163,14 @@ impl super::Datatype for XsdDatatypes {
                 DATETIME_RE.is_match(value)
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
-            XsdDatatypes::Double(patt) => {
-                (matches!(value, "INF" | "-INF" | "NaN") || parse_double(value).is_ok())
+            XsdDatatypes::Double(min_max, patt) => {
+                match value {
+                    "INF" => Some(f64::INFINITY),
+                    "-INF" => Some(f64::NEG_INFINITY),
+                    "NaN" => Some(f64::NAN),
+                    _ => parse_double(value).ok(),
+                }
+                .is_some_and(|v| min_max.is_valid(&Double(v)))
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::AnyURI(patt) => {
@@ -588,6 +598,17 @@ where
     }
 }
 
+/// A value of the type `double`; as a bound it's always finite
+#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
+pub struct Double(pub f64);
+impl Eq for Double {}
+impl std::hash::Hash for Double {
+    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        // adding zero makes both zeros, which are equal, positive
+        (self.0 + 0.0).to_bits().hash(state)
+    }
+}
+
 #[derive(Clone)]
 pub struct PatternFacet(String, regex::Regex);
 impl PartialEq for PatternFacet {
@@ -1071,10 +1092,10 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "minInclusive" => min_max.min_inclusive(Self::f64(ctx, param)?)?,
-                "minExclusive" => min_max.min_exclusive(Self::f64(ctx, param)?)?,
-                "maxInclusive" => min_max.max_inclusive(Self::f64(ctx, param)?)?,
-                "maxExclusive" => min_max.max_exclusive(Self::f64(ctx, param)?)?,
+                "minInclusive" => min_max.min_inclusive(Double(Self::f64(ctx, param)?))?,
+                "minExclusive" => min_max.min_exclusive(Double(Self::f64(ctx, param)?))?,
+                "maxInclusive" => min_max.max_inclusive(Double(Self::f64(ctx, param)?))?,
+                "maxExclusive" => min_max.max_exclusive(Double(Self::f64(ctx, param)?))?,
                 "pattern" => pattern = Some(self.pattern(ctx, param)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
@@ -1085,7 +1106,7 @@ impl Compiler {
             }
         }
 
-        Ok(XsdDatatypes::Double(pattern))
+        Ok(XsdDatatypes::Double(min_max, pattern))
     }
 
     fn nmtokens(&self, ctx: &Context, params: &[types::Param]) -> Result<XsdDatatypes, FacetError> {
-- 
2.43.0


From eceff4ac1ad24f432821196311bac2abac506a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 26/80] fix: accept exactly the dates, times and durations of
 XML Schema

---
 relaxng-model/src/datatype/xsd.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 13703b2..61bcce5 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -30,8 +30,8 @@ impl super::Datatype for XsdDatatypeValues {
 
 lazy_static! {
     static ref LANG_RE: regex::Regex = regex::Regex::new(r"^[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*$").unwrap();
-    static ref DATETIME_RE: regex::Regex = regex::Regex::new(r"^-?\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:Z(?:(?:\+|-)\d{2}:\d{2})?)?$").unwrap();
-    static ref DURATION_RE: regex::Regex = regex::Regex::new(r"^P(([0-9]+([.,][0-9]*)?Y)?([0-9]+([.,][0-9]*)?M)?([0-9]+([.,][0-9]*)?D)?T?([0-9]+([.,][0-9]*)?H)?([0-9]+([.,][0-9]*)?M)?([0-9]+([.,][0-9]*)?S)?)|\d{4}-?(0[1-9]|11|12)-?(?:[0-2]\d|30|31)T((?:[0-1][0-9]|[2][0-3]):?(?:[0-5][0-9]):?(?:[0-5][0-9]|60)|2400|24:00)$").unwrap();
+    static ref DATE_RE: regex::Regex = regex::Regex::new(r"^-?(?:[1-9][0-9]*)?([0-9]{4})-([0-9]{2})-([0-9]{2})(T(?:(?:[01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](?:\.[0-9]+)?|24:00:00(?:\.0+)?))?(?:Z|[+-](?:(?:0[0-9]|1[0-3]):[0-5][0-9]|14:00))?$").unwrap();
+    static ref DURATION_RE: regex::Regex = regex::Regex::new(r"^-?P(?:[0-9]+Y)?(?:[0-9]+M)?(?:[0-9]+D)?(?:T(?:[0-9]+H)?(?:[0-9]+M)?(?:[0-9]+(?:\.[0-9]+)?S)?)?$").unwrap();
 }
 
 // TODO: actually apply all required facets to each datatype
@@ -152,15 +152,14 @@ impl super::Datatype for XsdDatatypes {
             }
             XsdDatatypes::Token(str_facets) => str_facets.is_valid(value),
             XsdDatatypes::Duration(patt) => {
-                DURATION_RE.is_match(value)
-                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
+                is_valid_duration(value) && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Date(patt) => {
-                chrono::NaiveDate::parse_from_str(value, "%Y-%m-%d").is_ok()
+                is_valid_date(value, false)
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Datetime(patt) => {
-                DATETIME_RE.is_match(value)
+                is_valid_date(value, true)
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Double(min_max, patt) => {
@@ -237,6 +236,23 @@ fn is_valid_ncname(text: &str) -> bool {
     }
 }
 
+fn is_valid_duration(value: &str) -> bool {
+    // there must be at least one field, and at least one after any 'T'
+    DURATION_RE.is_match(value) && !value.ends_with(['P', 'T'])
+}
+
+fn is_valid_date(value: &str, with_time: bool) -> bool {
+    let Some(fields) = DATE_RE.captures(value) else {
+        return false;
+    };
+    // the calendar repeats every 400 years, so the last four digits of the year are enough,
+    let year = fields[1].parse().unwrap_or(0);
+    let month = fields[2].parse().unwrap_or(0);
+    let day = fields[3].parse().unwrap_or(0);
+    chrono::NaiveDate::from_ymd_opt(year, month, day).is_some()
+        && fields.get(4).is_some() == with_time
+}
+
 fn is_valid_nmtoken(text: &str) -> bool {
     // any name character may follow the first one of a name
     !text.is_empty() && is_valid_ncname(&format!("_{}", text.replace(':', "")))
-- 
2.43.0


From a0c6201750263800e8a50a4a94321d37ce726423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 27/80] fix: accept only names as ID and IDREF

---
 relaxng-model/src/datatype/xsd.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 61bcce5..01b9ffe 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -195,8 +195,12 @@ impl super::Datatype for XsdDatatypes {
                     .is_some_and(|v| min_max.is_valid(&v))
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
-            XsdDatatypes::Id(patt) => patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true),
-            XsdDatatypes::IdRef(patt) => patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true),
+            XsdDatatypes::Id(patt) => {
+                is_valid_ncname(value) && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
+            }
+            XsdDatatypes::IdRef(patt) => {
+                is_valid_ncname(value) && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
+            }
         }
     }
 }
-- 
2.43.0


From cb3035d5ae5cb7c456ab841c4819ccf6b5ceb87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 28/80] fix: check repeated and conflicting facets, in whatever
 order they are given

---
 relaxng-model/src/datatype/xsd.rs | 61 ++++++++++++-------------------
 1 file changed, 24 insertions(+), 37 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 01b9ffe..18128ff 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -357,32 +357,19 @@ impl LengthFacet {
     }
 
     fn merge(&mut self, other: LengthFacet) -> Result<(), FacetError> {
-        *self = match self {
-            LengthFacet::Unbounded => other,
-            LengthFacet::MinLength(min) => match other {
-                LengthFacet::Unbounded | LengthFacet::MinMaxLength(_, _) => unreachable!(),
-                LengthFacet::MinLength(_min) => {
-                    return Err(FacetError::ConflictingFacet("minLength"));
+        let conflict = |name| Err(FacetError::ConflictingFacet(name));
+        *self = match (&*self, other) {
+            (LengthFacet::Unbounded, other) => other,
+            (&LengthFacet::MinLength(min), LengthFacet::MaxLength(max))
+            | (&LengthFacet::MaxLength(max), LengthFacet::MinLength(min)) => {
+                if min > max {
+                    return conflict("minLength greater than maxLength");
                 }
-                LengthFacet::MaxLength(max) => {
-                    if *min > max {
-                        return Err(FacetError::ConflictingFacet(
-                            "minLength greater than maxLength",
-                        ));
-                    }
-                    LengthFacet::MinMaxLength(*min, max)
-                }
-                LengthFacet::Length(_) => return Err(FacetError::ConflictingFacet("length")),
-            },
-            LengthFacet::MaxLength(_) => {
-                unimplemented!()
-            }
-            LengthFacet::MinMaxLength(_, _) => {
-                unimplemented!()
-            }
-            LengthFacet::Length(_) => {
-                unimplemented!()
+                LengthFacet::MinMaxLength(min, max)
             }
+            (_, LengthFacet::MinLength(_)) => return conflict("minLength"),
+            (_, LengthFacet::MaxLength(_)) => return conflict("maxLength"),
+            (_, _) => return conflict("length"),
         };
         Ok(())
     }
@@ -516,7 +503,7 @@ where
         }
         self.min = match self.min {
             Min::Unbounded => Min::Inclusive(val),
-            Min::Inclusive(_) => unreachable!(),
+            Min::Inclusive(_) => return Err(FacetError::ConflictingFacet("minInclusive")),
             Min::Exclusive(_) => {
                 return Err(FacetError::ConflictingFacet(
                     "minInclusive conflicts with minExclusive",
@@ -529,16 +516,16 @@ where
         match &self.max {
             Max::Unbounded => {}
             Max::Inclusive(max) => {
-                if val > *max {
+                if val >= *max {
                     return Err(FacetError::ConflictingFacet(
-                        "minInclusive conflicts with maxInclusive",
+                        "minExclusive conflicts with maxInclusive",
                     ));
                 }
             }
             Max::Exclusive(max) => {
-                if val >= *max {
+                if val > *max {
                     return Err(FacetError::ConflictingFacet(
-                        "minInclusive conflicts with maxExclusive",
+                        "minExclusive conflicts with maxExclusive",
                     ));
                 }
             }
@@ -550,7 +537,7 @@ where
                     "minExclusive conflicts with minInclusive",
                 ));
             }
-            Min::Exclusive(_) => unreachable!(),
+            Min::Exclusive(_) => return Err(FacetError::ConflictingFacet("minExclusive")),
         };
         Ok(())
     }
@@ -567,14 +554,14 @@ where
             Min::Exclusive(min) => {
                 if *min >= val {
                     return Err(FacetError::ConflictingFacet(
-                        "minInclusive conflicts with maxExclusive",
+                        "minExclusive conflicts with maxInclusive",
                     ));
                 }
             }
         }
         self.max = match self.max {
             Max::Unbounded => Max::Inclusive(val),
-            Max::Inclusive(_) => unreachable!(),
+            Max::Inclusive(_) => return Err(FacetError::ConflictingFacet("maxInclusive")),
             Max::Exclusive(_) => {
                 return Err(FacetError::ConflictingFacet(
                     "maxInclusive conflicts with maxExclusive",
@@ -587,16 +574,16 @@ where
         match &self.min {
             Min::Unbounded => {}
             Min::Inclusive(min) => {
-                if *min > val {
+                if *min >= val {
                     return Err(FacetError::ConflictingFacet(
-                        "minInclusive conflicts with maxInclusive",
+                        "minInclusive conflicts with maxExclusive",
                     ));
                 }
             }
             Min::Exclusive(min) => {
-                if *min >= val {
+                if *min > val {
                     return Err(FacetError::ConflictingFacet(
-                        "minInclusive conflicts with maxExclusive",
+                        "minExclusive conflicts with maxExclusive",
                     ));
                 }
             }
@@ -608,7 +595,7 @@ where
                     "maxExclusive conflicts with maxInclusive",
                 ));
             }
-            Max::Exclusive(_) => unreachable!(),
+            Max::Exclusive(_) => return Err(FacetError::ConflictingFacet("maxExclusive")),
         };
         Ok(())
     }
-- 
2.43.0


From 41812c1c0a0f7984198aeb666da941c9b6f28ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 29/80] fix: apply all patterns of a datatype, and check
 repeated and conflicting digit facets

---
 relaxng-model/src/datatype/xsd.rs | 92 +++++++++++++++++++------------
 1 file changed, 58 insertions(+), 34 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 18128ff..a1c8da8 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -616,17 +616,19 @@ impl std::hash::Hash for Double {
     }
 }
 
+/// A pattern, together with any others given for the same datatype, all of which must match
 #[derive(Clone)]
-pub struct PatternFacet(String, regex::Regex);
+pub struct PatternFacet(String, regex::Regex, Option<Box<PatternFacet>>);
 impl PartialEq for PatternFacet {
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        self.0 == other.0 && self.2 == other.2
     }
 }
 impl Eq for PatternFacet {}
 impl std::hash::Hash for PatternFacet {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        self.0.hash(state)
+        self.0.hash(state);
+        self.2.hash(state)
     }
 }
 impl fmt::Debug for PatternFacet {
@@ -636,7 +638,7 @@ impl fmt::Debug for PatternFacet {
 }
 impl PatternFacet {
     fn is_valid(&self, value: &str) -> bool {
-        self.1.is_match(value)
+        self.1.is_match(value) && self.2.as_ref().is_none_or(|other| other.is_valid(value))
     }
 }
 
@@ -879,7 +881,7 @@ impl Compiler {
                 "length" => len.merge(LengthFacet::Length(Self::usize(ctx, param)?))?,
                 "minLength" => len.merge(LengthFacet::MinLength(Self::usize(ctx, param)?))?,
                 "maxLength" => len.merge(LengthFacet::MaxLength(Self::usize(ctx, param)?))?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -904,7 +906,7 @@ impl Compiler {
                 "length" => len.merge(LengthFacet::Length(Self::usize(ctx, param)?))?,
                 "minLength" => len.merge(LengthFacet::MinLength(Self::usize(ctx, param)?))?,
                 "maxLength" => len.merge(LengthFacet::MaxLength(Self::usize(ctx, param)?))?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -927,7 +929,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::i16(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::i16(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::i16(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -954,7 +956,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::u16(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::u16(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::u16(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -977,7 +979,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::i64(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::i64(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::i64(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1000,7 +1002,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::i32(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::i32(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::i32(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1022,7 +1024,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::bigint(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::bigint(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::bigint(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1049,7 +1051,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::biguint(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::biguint(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::biguint(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1074,8 +1076,14 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::bigdecimal(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::bigdecimal(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::bigdecimal(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
+                "fractionDigits" if fraction_digits.is_some() => {
+                    return Err(FacetError::ConflictingFacet("fractionDigits"));
+                }
                 "fractionDigits" => fraction_digits = Some(Self::u16(ctx, param)?),
+                "totalDigits" if total_digits.is_some() => {
+                    return Err(FacetError::ConflictingFacet("totalDigits"));
+                }
                 "totalDigits" => total_digits = Some(Self::u16(ctx, param)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
@@ -1086,6 +1094,15 @@ impl Compiler {
             }
         }
 
+        if total_digits
+            .zip(fraction_digits)
+            .is_some_and(|(total, fraction)| fraction > total)
+        {
+            return Err(FacetError::ConflictingFacet(
+                "fractionDigits greater than totalDigits",
+            ));
+        }
+
         Ok(XsdDatatypes::Decimal {
             min_max,
             pattern,
@@ -1103,7 +1120,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Double(Self::f64(ctx, param)?))?,
                 "maxInclusive" => min_max.max_inclusive(Double(Self::f64(ctx, param)?))?,
                 "maxExclusive" => min_max.max_exclusive(Double(Self::f64(ctx, param)?))?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1125,7 +1142,7 @@ impl Compiler {
                 "length" => len.merge(LengthFacet::Length(Self::usize(ctx, param)?))?,
                 "minLength" => len.merge(LengthFacet::MinLength(Self::usize(ctx, param)?))?,
                 "maxLength" => len.merge(LengthFacet::MaxLength(Self::usize(ctx, param)?))?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1147,7 +1164,7 @@ impl Compiler {
                 "length" => len.merge(LengthFacet::Length(Self::usize(ctx, param)?))?,
                 "minLength" => len.merge(LengthFacet::MinLength(Self::usize(ctx, param)?))?,
                 "maxLength" => len.merge(LengthFacet::MaxLength(Self::usize(ctx, param)?))?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1169,7 +1186,7 @@ impl Compiler {
                 "length" => len.merge(LengthFacet::Length(Self::usize(ctx, param)?))?,
                 "minLength" => len.merge(LengthFacet::MinLength(Self::usize(ctx, param)?))?,
                 "maxLength" => len.merge(LengthFacet::MaxLength(Self::usize(ctx, param)?))?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1191,7 +1208,7 @@ impl Compiler {
                 "length" => len.merge(LengthFacet::Length(Self::usize(ctx, param)?))?,
                 "minLength" => len.merge(LengthFacet::MinLength(Self::usize(ctx, param)?))?,
                 "maxLength" => len.merge(LengthFacet::MaxLength(Self::usize(ctx, param)?))?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1209,7 +1226,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1227,7 +1244,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1245,7 +1262,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1263,7 +1280,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1281,7 +1298,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1299,7 +1316,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1326,7 +1343,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::u32(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::u32(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::u32(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1353,7 +1370,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::u64(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::u64(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::u64(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1371,7 +1388,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1389,7 +1406,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1510,13 +1527,20 @@ impl Compiler {
             })
     }
 
-    fn pattern(&self, ctx: &Context, param: &types::Param) -> Result<PatternFacet, FacetError> {
-        let pattern = param.3.as_string_value();
-        regex::Regex::new(&pattern)
+    fn pattern(
+        &self,
+        ctx: &Context,
+        param: &types::Param,
+        pattern: &mut Option<PatternFacet>,
+    ) -> Result<(), FacetError> {
+        let text = param.3.as_string_value();
+        let regex = regex::Regex::new(&text)
             // the pattern must match the whole value, rather than some part of it
-            .and_then(|_| regex::Regex::new(&format!(r"\A(?:{pattern})\z")))
-            .map(|re| PatternFacet(pattern, re))
-            .map_err(|e| FacetError::InvalidPattern(ctx.convert_span(&param.0), e))
+            .and_then(|_| regex::Regex::new(&format!(r"\A(?:{text})\z")))
+            .map_err(|e| FacetError::InvalidPattern(ctx.convert_span(&param.0), e))?;
+        let others = pattern.take().map(Box::new);
+        *pattern = Some(PatternFacet(text, regex, others));
+        Ok(())
     }
 }
 
-- 
2.43.0


From e216fb5876c262e9b976441efc0b9a237be3fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 30/80] fix: only take the data type token for the built-in one
 without a datatype library

---
 relaxng-syntax/src/xml.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 33d265c..6c11d5d 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -497,8 +497,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
         .attribute_node("type")
         .ok_or(Error::Expected(node.range(), "type attribute"))?;
     let type_name = match type_attr.value().trim() {
-        // TODO: check datatypeLibrary namespace!
-        "token" => DatatypeName::Token,
+        "token" if datatype_ns.as_string_value().is_empty() => DatatypeName::Token,
         val => {
             let name = ncname(type_attr.range_value(), val)?;
             DatatypeName::NamespacedName(NamespacedName {
-- 
2.43.0


From 5c2885d73f523c68ae2087f4614e003976f8a90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 31/80] fix: resolve the prefix of the content of name elements

---
 relaxng-syntax/src/xml.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 6c11d5d..ae52aa4 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -849,7 +849,12 @@ fn qname_el(name: Node) -> Result<Name> {
             let end = name.range().end;
             let prefix = ncname(start..(start + pos), val[0..pos].trim())?;
             let localname = ncname(start + pos + 1..end, val[pos + 1..].trim())?;
-            Ok(Name::CName(QName(prefix, localname)))
+            let namespace = lookup_namespace_def(name, Some(&prefix.1))
+                .ok_or_else(|| Error::Unexpected(prefix.0.clone(), "Unknown namespace prefix"))?;
+            Ok(Name::NamespacedName(NamespacedName {
+                namespace_uri: Literal::new(prefix.0, namespace.to_string()),
+                localname,
+            }))
         } else {
             let ns = get_ns(name).unwrap_or(Literal::new(0..0, "".to_string())); // TODO allow None or something rather than inventing an 'empty' NcName
             let localname = ncname(name.first_child().unwrap().range(), val)?;
-- 
2.43.0


From 08b63c9955627e9918a4141fc154c831cf17b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 32/80] fix: do not let attributes named by the name attribute
 inherit ns

---
 relaxng-syntax/src/xml.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index ae52aa4..348ccb7 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -138,7 +138,7 @@ fn next_rng_sibling<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, '
 fn element(node: Node) -> Result<ElementPattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     let (name_class, pattern) = if let Some(name) = node.attribute_node("name") {
-        let name_class = NameClass::Name(qname_att(node, &name)?);
+        let name_class = NameClass::Name(qname_att(node, &name, get_ns_att(node))?);
         let pat_el = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
         let pattern = single_pattern_or_group(pat_el)?;
         (name_class, pattern)
@@ -262,7 +262,11 @@ fn ns_name(node: Node) -> Result<NsName> {
 }
 
 fn get_ns(node: Node) -> Option<Literal> {
-    get_ns_att(node).map(|ns| Literal::new(ns.range_value(), ns.value().to_string()))
+    get_ns_att(node).map(|ns| ns_literal(&ns))
+}
+
+fn ns_literal(ns: &Attribute) -> Literal {
+    Literal::new(ns.range_value(), ns.value().to_string())
 }
 
 /// Find the 'ns' attribute on the element, or its nearest parent element, or None if there is no
@@ -318,8 +322,9 @@ fn single_pattern_or_group(mut node: Node) -> Result<Pattern> {
 
 fn attribute(node: Node) -> Result<AttributePattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
-    let ns = get_ns_att(node);
     let (name_class, rest) = if let Some(name) = node.attribute_node("name") {
+        // unlike elements, attributes do not inherit the 'ns' of the elements around them
+        let ns = node.attribute_node("ns");
         if name.value() == "xmlns" && (ns.is_none() || ns.unwrap().value() == "") {
             return Err(Error::Unexpected(
                 name.range_value(),
@@ -334,7 +339,7 @@ fn attribute(node: Node) -> Result<AttributePattern> {
             ));
         }
         (
-            NameClass::Name(qname_att(node, &name)?),
+            NameClass::Name(qname_att(node, &name, ns)?),
             first_rng_child(node),
         )
     } else {
@@ -816,7 +821,7 @@ fn div_include_content(node: Node) -> Result<IncludeContent> {
     Ok(IncludeContent::Div(content))
 }
 
-fn qname_att(node: Node, name: &Attribute) -> Result<Name> {
+fn qname_att(node: Node, name: &Attribute, ns: Option<Attribute>) -> Result<Name> {
     let val = name.value();
     if let Some(pos) = val.find(':') {
         let start = name.range_value().start;
@@ -832,7 +837,8 @@ fn qname_att(node: Node, name: &Attribute) -> Result<Name> {
             localname,
         }))
     } else {
-        let ns = get_ns(node).unwrap_or(Literal::new(0..0, String::new())); // TODO allow None or something rather than inventing an 'empty' NcName
+        // TODO allow None or something rather than inventing an 'empty' NcName
+        let ns = ns.map_or(Literal::new(0..0, String::new()), |ns| ns_literal(&ns));
         let localname = ncname(name.range_value(), val)?;
         Ok(Name::NamespacedName(NamespacedName {
             namespace_uri: ns,
-- 
2.43.0


From 395dada5d2b87896d088e64a2efa5a12216c4cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 33/80] fix: apply the ns around an include or externalRef to
 the names of the file

---
 relaxng-model/src/lib.rs      | 19 +++++++++++++++---
 relaxng-syntax/src/compact.rs |  2 +-
 relaxng-syntax/src/types.rs   |  7 ++++++-
 relaxng-syntax/src/xml.rs     | 38 ++++++++++++++++++++++++-----------
 4 files changed, 49 insertions(+), 17 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index a597ee9..ea82805 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -385,6 +385,16 @@ impl<'a> Context<'a> {
         }
     }
 
+    /// The namespace that's given in the XML syntax, where a literal without any segments stands
+    /// for the inherited one
+    fn namespace_uri_for_literal(&self, uri: &types::Literal) -> String {
+        if uri.1.is_empty() {
+            self.inherited_namespace_uri().to_string()
+        } else {
+            uri.as_string_value()
+        }
+    }
+
     /// The namespace to be inherited by a file that's included or referenced from this context:
     /// that of the given prefix, or else the default namespace
     fn namespace_uri_to_inherit(
@@ -392,7 +402,8 @@ impl<'a> Context<'a> {
         inherit: &Option<types::Inherit>,
     ) -> Result<String, RelaxError> {
         match inherit {
-            Some(types::Inherit(id)) => {
+            Some(types::Inherit::NamespaceUri(uri)) => Ok(uri.as_string_value()),
+            Some(types::Inherit::Prefix(id)) => {
                 let prefix = id.to_string();
                 match self.namespace_uri_for_prefix_str(&prefix) {
                     Some(uri) => Ok(uri.to_string()),
@@ -2056,7 +2067,7 @@ impl<FS: Files> Compiler<FS> {
                     namespace_uri,
                     localname,
                 }) => Ok(model::NameClass::named(
-                    namespace_uri.as_string_value(),
+                    ctx.namespace_uri_for_literal(namespace_uri),
                     localname.1.clone(),
                 )),
             },
@@ -2067,7 +2078,9 @@ impl<FS: Files> Compiler<FS> {
                     None
                 };
                 let uri = match name {
-                    types::NamespaceOrPrefix::NamespaceUri(uri) => uri.as_string_value(),
+                    types::NamespaceOrPrefix::NamespaceUri(uri) => {
+                        ctx.namespace_uri_for_literal(uri)
+                    }
                     types::NamespaceOrPrefix::Prefix(prefix) => {
                         ctx.namespace_uri_for_prefix(prefix)?.to_string()
                     }
diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index b5f12c0..f606633 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -842,7 +842,7 @@ fn inherit(input: Span) -> IResult<Span, Inherit> {
         identifier_or_keyword,
     );
 
-    let mut parser = map(parse, |(_, _, _, _, id)| Inherit(id));
+    let mut parser = map(parse, |(_, _, _, _, id)| Inherit::Prefix(id));
 
     parser.parse(input)
 }
diff --git a/relaxng-syntax/src/types.rs b/relaxng-syntax/src/types.rs
index 9953394..587bd5b 100644
--- a/relaxng-syntax/src/types.rs
+++ b/relaxng-syntax/src/types.rs
@@ -177,7 +177,12 @@ pub struct Include(
 );
 
 #[derive(Debug, PartialEq)]
-pub struct Inherit(pub IdentifierOrKeyword);
+pub enum Inherit {
+    // Per compact-syntax usage
+    Prefix(IdentifierOrKeyword),
+    // Per xml-syntax usage
+    NamespaceUri(Literal),
+}
 
 #[derive(Debug, PartialEq)]
 pub enum IncludeContent {
diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 348ccb7..8367b4a 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -53,6 +53,10 @@ type Result<T> = std::result::Result<T, Error>;
 
 const NS: &str = "http://relaxng.org/ns/structure/1.0";
 
+/// Stands for the namespace in force around a reference to this file, which is that of names
+/// outside of any element with an 'ns' attribute
+const INHERITED_NS: Literal = Literal(0..0, vec![]);
+
 fn pattern(node: Node) -> Result<Pattern> {
     if node.is_element() && node.tag_name().namespace() == Some(NS) {
         check_standard_attrs(node)?;
@@ -138,7 +142,11 @@ fn next_rng_sibling<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, '
 fn element(node: Node) -> Result<ElementPattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     let (name_class, pattern) = if let Some(name) = node.attribute_node("name") {
-        let name_class = NameClass::Name(qname_att(node, &name, get_ns_att(node))?);
+        let name_class = NameClass::Name(qname_att(
+            node,
+            &name,
+            get_ns(node).unwrap_or(INHERITED_NS),
+        )?);
         let pat_el = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
         let pattern = single_pattern_or_group(pat_el)?;
         (name_class, pattern)
@@ -256,7 +264,7 @@ fn ns_name(node: Node) -> Result<NsName> {
     Ok(NsName {
         // TODO: the NsName type was defined to match compact-syntax and doesn't really work with
         //       xml syntax; we need a representation that works for xml-syntax too
-        name: NamespaceOrPrefix::NamespaceUri(ns.unwrap_or(Literal::new(0..0, String::new()))),
+        name: NamespaceOrPrefix::NamespaceUri(ns.unwrap_or(INHERITED_NS)),
         except: except.map(Box::new),
     })
 }
@@ -324,14 +332,16 @@ fn attribute(node: Node) -> Result<AttributePattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     let (name_class, rest) = if let Some(name) = node.attribute_node("name") {
         // unlike elements, attributes do not inherit the 'ns' of the elements around them
-        let ns = node.attribute_node("ns");
-        if name.value() == "xmlns" && (ns.is_none() || ns.unwrap().value() == "") {
+        let ns = node
+            .attribute_node("ns")
+            .map_or(Literal::new(0..0, String::new()), |ns| ns_literal(&ns));
+        if name.value() == "xmlns" && ns.as_string_value().is_empty() {
             return Err(Error::Unexpected(
                 name.range_value(),
                 "Schemas may not define the xmlns attribute",
             ));
         }
-        if ns.is_some() && ns.unwrap().value() == "http://www.w3.org/2000/xmlns" {
+        if ns.as_string_value() == "http://www.w3.org/2000/xmlns" {
             // TODO: additionally supply the range where the ns was declared
             return Err(Error::Unexpected(
                 name.range(),
@@ -615,7 +625,10 @@ fn external_ref(node: Node) -> Result<ExternalPattern> {
     };
     let val = Literal(href.range_value(), vec![seg]);
 
-    Ok(ExternalPattern(val, None))
+    Ok(ExternalPattern(
+        val,
+        get_ns(node).map(Inherit::NamespaceUri),
+    ))
 }
 
 fn grammar(node: Node) -> Result<GrammarPattern> {
@@ -786,7 +799,11 @@ fn include(node: Node) -> Result<Include> {
         next = next_rng_sibling(child);
     }
 
-    Ok(Include(val, None, Some(content)))
+    Ok(Include(
+        val,
+        get_ns(node).map(Inherit::NamespaceUri),
+        Some(content),
+    ))
 }
 
 fn include_content(node: Node) -> Result<IncludeContent> {
@@ -821,7 +838,7 @@ fn div_include_content(node: Node) -> Result<IncludeContent> {
     Ok(IncludeContent::Div(content))
 }
 
-fn qname_att(node: Node, name: &Attribute, ns: Option<Attribute>) -> Result<Name> {
+fn qname_att(node: Node, name: &Attribute, ns: Literal) -> Result<Name> {
     let val = name.value();
     if let Some(pos) = val.find(':') {
         let start = name.range_value().start;
@@ -837,8 +854,6 @@ fn qname_att(node: Node, name: &Attribute, ns: Option<Attribute>) -> Result<Name
             localname,
         }))
     } else {
-        // TODO allow None or something rather than inventing an 'empty' NcName
-        let ns = ns.map_or(Literal::new(0..0, String::new()), |ns| ns_literal(&ns));
         let localname = ncname(name.range_value(), val)?;
         Ok(Name::NamespacedName(NamespacedName {
             namespace_uri: ns,
@@ -862,10 +877,9 @@ fn qname_el(name: Node) -> Result<Name> {
                 localname,
             }))
         } else {
-            let ns = get_ns(name).unwrap_or(Literal::new(0..0, "".to_string())); // TODO allow None or something rather than inventing an 'empty' NcName
             let localname = ncname(name.first_child().unwrap().range(), val)?;
             Ok(Name::NamespacedName(NamespacedName {
-                namespace_uri: ns,
+                namespace_uri: get_ns(name).unwrap_or(INHERITED_NS),
                 localname,
             }))
         }
-- 
2.43.0


From 3d27e33092944956eeb1523f60e0e90e3ec07312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 34/80] fix: read the whole text of value, param and name
 elements, around comments

---
 relaxng-syntax/src/xml.rs | 78 +++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 45 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 8367b4a..7a10f33 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -478,21 +478,7 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
         .attribute_node("type")
         .map(|attr| ncname(attr.range_value(), attr.value()))
         .transpose()?;
-    let val = if let Some(child) = node.first_child() {
-        let seg = LiteralSegment {
-            body: child
-                .text()
-                .ok_or(Error::Expected(node.range(), "Text content"))?
-                .to_string(),
-        };
-        Literal(child.range(), vec![seg])
-    } else {
-        // treat the value as ""
-        let seg = LiteralSegment {
-            body: "".to_string(),
-        };
-        Literal(node.range(), vec![seg])
-    };
+    let val = text_content(node);
     Ok(DatatypeValuePattern(
         type_name.map(|name| {
             DatatypeName::NamespacedName(NamespacedName {
@@ -504,6 +490,20 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
     ))
 }
 
+/// The text of an element without child elements, which comments might divide into several nodes
+fn text_content(node: Node) -> Literal {
+    let body = node
+        .children()
+        .filter(|child| child.is_text())
+        .filter_map(|child| child.text())
+        .collect();
+    let range = match (node.first_child(), node.last_child()) {
+        (Some(first), Some(last)) => first.range().start..last.range().end,
+        _ => node.range(),
+    };
+    Literal::new(range, body)
+}
+
 fn data(node: Node) -> Result<DatatypeNamePattern> {
     // TODO: have a better representation for 'unspecified' (default) datatype namespace that
     // doesn't need a bogus 0..0 span,
@@ -588,16 +588,8 @@ fn param(node: Node) -> Result<Param> {
         .ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = attr_ncname(&name)?;
 
-    let child = node
-        .first_child()
-        .ok_or(Error::Expected(node.range(), "Text content"))?;
-    let seg = LiteralSegment {
-        body: child
-            .text()
-            .ok_or(Error::Expected(node.range(), "Text content"))?
-            .to_string(),
-    };
-    let val = Literal(child.range(), vec![seg]);
+    no_element_children(node)?;
+    let val = text_content(node);
 
     Ok(Param(
         node.range(),
@@ -864,27 +856,23 @@ fn qname_att(node: Node, name: &Attribute, ns: Literal) -> Result<Name> {
 
 fn qname_el(name: Node) -> Result<Name> {
     no_element_children(name)?;
-    if let Some(val) = name.text() {
-        if let Some(pos) = val.find(':') {
-            let start = name.range().start;
-            let end = name.range().end;
-            let prefix = ncname(start..(start + pos), val[0..pos].trim())?;
-            let localname = ncname(start + pos + 1..end, val[pos + 1..].trim())?;
-            let namespace = lookup_namespace_def(name, Some(&prefix.1))
-                .ok_or_else(|| Error::Unexpected(prefix.0.clone(), "Unknown namespace prefix"))?;
-            Ok(Name::NamespacedName(NamespacedName {
-                namespace_uri: Literal::new(prefix.0, namespace.to_string()),
-                localname,
-            }))
-        } else {
-            let localname = ncname(name.first_child().unwrap().range(), val)?;
-            Ok(Name::NamespacedName(NamespacedName {
-                namespace_uri: get_ns(name).unwrap_or(INHERITED_NS),
-                localname,
-            }))
-        }
+    let text = text_content(name);
+    let (val, range) = (text.as_string_value(), text.0);
+    if let Some(pos) = val.find(':') {
+        let prefix = ncname(range.clone(), &val[0..pos])?;
+        let localname = ncname(range, &val[pos + 1..])?;
+        let namespace = lookup_namespace_def(name, Some(&prefix.1))
+            .ok_or_else(|| Error::Unexpected(prefix.0.clone(), "Unknown namespace prefix"))?;
+        Ok(Name::NamespacedName(NamespacedName {
+            namespace_uri: Literal::new(prefix.0, namespace.to_string()),
+            localname,
+        }))
     } else {
-        Err(Error::Expected(name.range(), "Text contents"))
+        let localname = ncname(range, &val)?;
+        Ok(Name::NamespacedName(NamespacedName {
+            namespace_uri: get_ns(name).unwrap_or(INHERITED_NS),
+            localname,
+        }))
     }
 }
 
-- 
2.43.0


From f1b04b36ac3f7fa7233ea6d8aa3b73a36a1f3de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 35/80] fix: report the positions of errors in XML schemas
 without panicking

---
 relaxng-syntax/src/xml.rs | 61 +++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 7a10f33..d512058 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -16,15 +16,19 @@ pub enum Error {
 
 pub fn parse(text: &str) -> Result<Schema> {
     let doc = roxmltree::Document::parse(text).map_err(|e| {
-        // Gah!  The interface we want to expose is in terms of byte-offset + len pairs, but
-        // the errors from roxmltree give us
-        let (off, len) = text
-            .lines()
-            .take(e.pos().row as _)
-            .fold((0, 0), |(acc, _), line| (acc + line.len(), line.len()));
-
-        let start = off + e.pos().col as usize;
-        let end = len - e.pos().col as usize;
+        // Gah!  The interface we want to expose is in terms of byte-offsets, but the errors from
+        // roxmltree give us the numbers, starting from 1, of a line and of a character in it
+        let line = text
+            .split_inclusive('\n')
+            .take((e.pos().row as usize).saturating_sub(1))
+            .map(str::len)
+            .sum::<usize>();
+        let mut chars = text[line..]
+            .char_indices()
+            .map(|(off, _)| line + off)
+            .skip((e.pos().col as usize).saturating_sub(1));
+        let start = chars.next().unwrap_or(text.len());
+        let end = chars.next().unwrap_or(text.len());
         Error::Xml(start..end, e.to_string())
     })?;
     Ok(Schema {
@@ -160,12 +164,22 @@ fn element(node: Node) -> Result<ElementPattern> {
         (name_class, pattern)
     };
     Ok(ElementPattern {
-        span: node.range().start + 1..node.range().start + 8,
+        span: tag_span(node),
         name_class,
         pattern: Box::new(pattern),
     })
 }
 
+/// Where the element's name is in its start tag
+fn tag_span(node: Node) -> Span {
+    let start = node.range().start + 1;
+    let tag = &node.document().input_text()[start..];
+    let len = tag
+        .find(|c: char| c.is_ascii_whitespace() || c == '/' || c == '>')
+        .unwrap_or(tag.len());
+    start..start + len
+}
+
 fn no_attrs_except(node: Node, names: &[&str]) -> std::result::Result<(), Error> {
     if let Some(a) = node
         .attributes()
@@ -370,7 +384,7 @@ fn attribute(node: Node) -> Result<AttributePattern> {
         ));
     }
     Ok(AttributePattern {
-        span: node.range().start + 1..node.range().start + 10,
+        span: tag_span(node),
         name_class,
         pattern: Box::new(pattern),
     })
@@ -684,8 +698,7 @@ fn start(node: Node) -> Result<Define> {
     // so as to avoid duplication of code handling 'start' definitions and other definitions
     // TODO: revisit this design later
 
-    let start_span = node.range().start + 1..node.range().start + 6;
-    let name = Identifier(start_span, "start".to_string());
+    let name = Identifier(tag_span(node), "start".to_string());
 
     let child =
         first_rng_child(node).ok_or(Error::Expected(node.range(), "Child pattern element"))?;
@@ -833,13 +846,12 @@ fn div_include_content(node: Node) -> Result<IncludeContent> {
 fn qname_att(node: Node, name: &Attribute, ns: Literal) -> Result<Name> {
     let val = name.value();
     if let Some(pos) = val.find(':') {
-        let start = name.range_value().start;
-        let end = name.range_value().end;
+        // because of references, the value may be longer or shorter than its notation
         let prefix = &val[0..pos];
-        let prefix_span = start..(start + pos);
+        let prefix_span = name.range_value();
         let namespace = lookup_namespace_def(node, Some(prefix.trim()))
             .ok_or_else(|| Error::Unexpected(prefix_span.clone(), "Unknown namespace prefix"))?;
-        let localname = ncname(start + pos + 1..end, &val[pos + 1..])?;
+        let localname = ncname(name.range_value(), &val[pos + 1..])?;
         let ns = Literal::new(prefix_span, namespace.to_string());
         Ok(Name::NamespacedName(NamespacedName {
             namespace_uri: ns,
@@ -884,17 +896,10 @@ fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
     for (i, c) in val.char_indices() {
         if i == 0 {
             if !is_nc_name_start_char(c) {
-                return Err(Error::Unexpected(
-                    range.start..range.start + 1,
-                    "Unexpected character for NcName",
-                ));
+                return Err(Error::Unexpected(range, "Unexpected character for NcName"));
             }
         } else if !is_nc_name_char(c) {
-            println!("NcName Urk! {val:?}");
-            return Err(Error::Unexpected(
-                range.start + i..range.start + i + 1,
-                "Unexpected character for NcName",
-            ));
+            return Err(Error::Unexpected(range, "Unexpected character for NcName"));
         }
     }
     Ok(NcName(range, val.to_string()))
@@ -922,13 +927,13 @@ fn ident(range: Range<usize>, val: &str) -> Result<Identifier> {
         if i == 0 {
             if !is_nc_name_start_char(c) {
                 return Err(Error::Unexpected(
-                    range.start..range.start + 1,
+                    range,
                     "Unexpected character within identifier",
                 ));
             }
         } else if !is_nc_name_char(c) {
             return Err(Error::Unexpected(
-                range.start + i..range.start + i + 1,
+                range,
                 "Unexpected character within identifier",
             ));
         }
-- 
2.43.0


From 4321170100535739968d1eadedb37ee59c1f44b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 36/80] fix: report unsupported types of values instead of
 panicking

---
 relaxng-model/src/datatype/xsd.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index a1c8da8..67ce0dc 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -864,7 +864,10 @@ impl Compiler {
                     }
                 })?,
             )),
-            _ => unimplemented!("{:?} not yet supported", name),
+            _ => Err(XsdDatatypeError::UnsupportedDatatype {
+                span: ctx.convert_span(span),
+                name: name.to_string(),
+            }),
         }
     }
 
@@ -1556,8 +1559,8 @@ impl TryFromVal for QNameVal {
             let prefix = &val[0..pos];
             let localname = &val[pos + 1..];
             if is_valid_ncname(prefix) && is_valid_ncname(localname) {
-                unimplemented!("Need to be able to look up prefix {:?}", prefix);
-            //Ok(QNameVal(val.to_string()))
+                // TODO: Need to be able to look up prefix
+                Err(())
             } else {
                 Err(())
             }
-- 
2.43.0


From 887d35311110d9f8d85ae95770e5602a9cdf7e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 37/80] fix: allow a comment at the end of a compact schema
 without a line end

---
 relaxng-syntax/src/compact.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index f606633..bd2a347 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -7,11 +7,8 @@ use nom::sequence::preceded;
 use nom::{
     AsChar, IResult,
     branch::alt,
-    bytes::complete::{is_not, tag, take_until},
-    character::{
-        complete::{char, multispace1},
-        streaming::not_line_ending,
-    },
+    bytes::complete::{is_not, tag, take_until, take_while},
+    character::complete::{char, multispace1},
     combinator::{all_consuming, map, not, opt, peek, recognize},
     error::ErrorKind,
     multi::{fold_many0, fold_many1, many0, separated_list0},
@@ -888,7 +885,7 @@ fn space_comment1(input: Span) -> IResult<Span, Span> {
     recognize(fold_many1(alt((multispace1, comment)), || (), |_, _| ())).parse(input)
 }
 fn comment(input: Span) -> IResult<Span, Span> {
-    recognize((tag("#"), not_line_ending)).parse(input)
+    recognize((tag("#"), take_while(|c| c != '\n' && c != '\r'))).parse(input)
 }
 
 fn maybe_initial_annotation(input: Span) -> IResult<Span, Option<InitialAnnotation>> {
-- 
2.43.0


From c4a7089141ba7f6bc3e28ef4527a770aada3735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 38/80] fix: allow identifiers and prefixes which start like
 the names of built-in datatypes

---
 relaxng-syntax/src/compact.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index bd2a347..f0d1ea3 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -585,9 +585,10 @@ fn except_pattern(input: Span) -> IResult<Span, Pattern> {
 //                   | "token"
 fn datatype_name(input: Span) -> IResult<Span, DatatypeName> {
     alt((
-        map(tag("string"), |_| DatatypeName::String),
-        map(tag("token"), |_| DatatypeName::Token),
         map(cname, DatatypeName::CName),
+        // other identifiers may start like these names
+        map((tag("string"), not(nc_name_char)), |_| DatatypeName::String),
+        map((tag("token"), not(nc_name_char)), |_| DatatypeName::Token),
     ))
     .parse(input)
 }
-- 
2.43.0


From 8fb325d05fac22e3cbdc966c5446bc54283bcc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 39/80] fix: ignore annotations without panicking or printing
 them

---
 relaxng-syntax/src/compact.rs | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index f0d1ea3..2453729 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -309,10 +309,8 @@ fn keyword(input: Span) -> IResult<Span, Keyword> {
 //    | "grammar" "{" grammarContent* "}"
 //    | "(" pattern ")"
 fn pattern(input: Span) -> IResult<Span, Pattern> {
-    let (input, annotation) = maybe_initial_annotation(input)?;
-    if let Some(annotation) = annotation {
-        println!("pattern annotation found but ignored! {:?}", annotation);
-    }
+    // TODO: annotations are ignored here, as well as in name-classes and include-content
+    let (input, _annotation) = maybe_initial_annotation(input)?;
     let (input, mut result) = alt((
         map(element_pattern, Pattern::Element),
         map(attribute_pattern, Pattern::Attribute),
@@ -333,10 +331,7 @@ fn pattern(input: Span) -> IResult<Span, Pattern> {
     ))
     .parse(input)?;
 
-    let (mut input, follow_annotations) = follow_annotation_list(input)?;
-    if !follow_annotations.is_empty() {
-        println!("pattern follow annotation found but ignored! {follow_annotations:?}");
-    }
+    let (mut input, _follow_annotations) = follow_annotation_list(input)?;
 
     loop {
         let (i, _) = space_comment0(input)?;
@@ -594,10 +589,7 @@ fn datatype_name(input: Span) -> IResult<Span, DatatypeName> {
 }
 
 fn name_class(input: Span) -> IResult<Span, NameClass> {
-    let (input, annotation) = maybe_initial_annotation(input)?;
-    if annotation.is_some() {
-        println!("name-class annotation found but ignored!")
-    }
+    let (input, _annotation) = maybe_initial_annotation(input)?;
     let (input, left) = alt((
         map(ns_name_nc, NameClass::NsName),
         map(name, NameClass::Name),
@@ -607,13 +599,7 @@ fn name_class(input: Span) -> IResult<Span, NameClass> {
     ))
     .parse(input)?;
 
-    let (input, follow_annotations) = follow_annotation_list(input)?;
-    if !follow_annotations.is_empty() {
-        println!(
-            "name-class follow annotation found but ignored! {:?}",
-            annotation.unwrap()
-        );
-    }
+    let (input, _follow_annotations) = follow_annotation_list(input)?;
 
     if let Ok((input, right)) = alt_nc(input) {
         return Ok((
@@ -849,10 +835,7 @@ fn inherit(input: Span) -> IResult<Span, Inherit> {
 //                    | start
 //                    | "div" "{" includeContent* "}"
 fn include_content(input: Span) -> IResult<Span, IncludeContent> {
-    let (input, annotation) = maybe_initial_annotation(input)?;
-    if annotation.is_some() {
-        println!("include-content annotation found but ignored!")
-    }
+    let (input, _annotation) = maybe_initial_annotation(input)?;
     alt((
         map(annotation_element, IncludeContent::Annotation),
         map(define, IncludeContent::Define),
-- 
2.43.0


From 751f281c59da0c82f2e624b867dd0691f98067a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 40/80] fix: allow annotations of the components of a grammar

---
 relaxng-syntax/src/compact.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 2453729..fa6a263 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -309,7 +309,7 @@ fn keyword(input: Span) -> IResult<Span, Keyword> {
 //    | "grammar" "{" grammarContent* "}"
 //    | "(" pattern ")"
 fn pattern(input: Span) -> IResult<Span, Pattern> {
-    // TODO: annotations are ignored here, as well as in name-classes and include-content
+    // TODO: annotations are ignored here, as well as in name-classes, grammar-content and include-content
     let (input, _annotation) = maybe_initial_annotation(input)?;
     let (input, mut result) = alt((
         map(element_pattern, Pattern::Element),
@@ -696,6 +696,7 @@ where
 //                        | "div" "{" grammarContent* "}"
 //                        | "include" anyURILiteral [inherit] ["{" includeContent* "}"]
 fn grammar_content(input: Span) -> IResult<Span, GrammarContent> {
+    let (input, _annotation) = maybe_initial_annotation(input)?;
     alt((
         map(start, GrammarContent::Define),
         map(define, GrammarContent::Define),
-- 
2.43.0


From d652bdd704f4c74ab84a92785646b5e03e277664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 41/80] fix: allow any name to be quoted, and do not take the
 quotation as part of it

---
 relaxng-syntax/src/compact.rs | 29 +++++++++++++++++++++--------
 relaxng-syntax/src/xml.rs     | 16 +++++++++++++---
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index fa6a263..e5e500f 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -196,12 +196,24 @@ fn span(start: LocatedSpan<&str>, end: LocatedSpan<&str>) -> Range<usize> {
 //                   | quotedIdentifier
 fn identifier(input: Span) -> IResult<Span, Identifier> {
     let res = alt((
-        recognize((tag("\\"), keyword)),
-        recognize((not(peek(keyword)), nc_name)),
+        preceded(tag("\\"), nc_name),
+        preceded(not(peek(keyword)), nc_name),
     ))
     .parse(input);
 
-    res.map(|(input, v)| (input, Identifier(span(v, input), v.to_string())))
+    res.map(|(rest, v)| (rest, Identifier(span(input, rest), v.1)))
+}
+
+// the name of a definition, where "\start" is a name like any other, and not the start of a grammar
+fn definition_name(input: Span) -> IResult<Span, Identifier> {
+    map(identifier, |Identifier(span, name)| {
+        if name == "start" {
+            Identifier(span, "\\start".to_string())
+        } else {
+            Identifier(span, name)
+        }
+    })
+    .parse(input)
 }
 
 pub fn nc_name(input: Span) -> IResult<Span, NcName> {
@@ -318,10 +330,11 @@ fn pattern(input: Span) -> IResult<Span, Pattern> {
         map(mixed_pattern, Pattern::Mixed),
         map(datatype_value_pattern, Pattern::DatatypeValue),
         map(datatype_param_pattern, Pattern::DatatypeName),
-        map(identifier, Pattern::Identifier),
-        map((tag("parent"), space_comment1, identifier), |(_, _, p)| {
-            Pattern::Parent(p)
-        }),
+        map(definition_name, Pattern::Identifier),
+        map(
+            (tag("parent"), space_comment1, definition_name),
+            |(_, _, p)| Pattern::Parent(p),
+        ),
         map(tag("empty"), |_| Pattern::Empty),
         map(tag("text"), |_| Pattern::Text),
         map(tag("notAllowed"), |_| Pattern::NotAllowed),
@@ -741,7 +754,7 @@ fn start(input: Span) -> IResult<Span, Define> {
 fn define(input: Span) -> IResult<Span, Define> {
     let parse = (
         position,
-        identifier,
+        definition_name,
         space_comment0,
         assign_method,
         space_comment0,
diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index d512058..0263dcd 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -456,7 +456,7 @@ fn mixed(node: Node) -> Result<MixedPattern> {
 fn ref_patt(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
     if let Some(name) = node.attribute_node("name") {
-        attr_ncname(&name)
+        definition_name(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
     }
@@ -465,7 +465,7 @@ fn ref_patt(node: Node) -> Result<Identifier> {
 fn parent_ref(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
     if let Some(name) = node.attribute_node("name") {
-        attr_ncname(&name)
+        definition_name(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
     }
@@ -728,7 +728,7 @@ fn define(node: Node) -> Result<Define> {
     let name = node
         .attribute_node("name")
         .ok_or(Error::Expected(node.range(), "name attribute"))?;
-    let name = attr_ncname(&name)?;
+    let name = definition_name(&name)?;
 
     let patt = single_pattern_or_group(
         first_rng_child(node).ok_or(Error::Expected(node.range(), "Child pattern element"))?,
@@ -747,6 +747,16 @@ fn div_grammar_content(node: Node) -> Result<GrammarContent> {
     Ok(GrammarContent::Div(content))
 }
 
+/// The name of a definition, where "start" is a name like any other, and not the start of a grammar
+fn definition_name(attr: &Attribute) -> Result<Identifier> {
+    let Identifier(span, name) = attr_ncname(attr)?;
+    Ok(if name == "start" {
+        Identifier(span, "\\start".to_string())
+    } else {
+        Identifier(span, name)
+    })
+}
+
 fn attr_ncname(attr: &Attribute) -> Result<Identifier> {
     // TODO: further checks
     if attr.value().contains(':') {
-- 
2.43.0


From e8817d57eb154815cbee9461dcbb970bb0a2558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 42/80] fix: reject patterns whose operators are mixed without
 parentheses

---
 relaxng-syntax/src/compact.rs | 111 ++++++++++++++++++++--------------
 1 file changed, 65 insertions(+), 46 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index e5e500f..e6a87e4 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -10,7 +10,6 @@ use nom::{
     bytes::complete::{is_not, tag, take_until, take_while},
     character::complete::{char, multispace1},
     combinator::{all_consuming, map, not, opt, peek, recognize},
-    error::ErrorKind,
     multi::{fold_many0, fold_many1, many0, separated_list0},
     sequence::delimited,
 };
@@ -321,9 +320,71 @@ fn keyword(input: Span) -> IResult<Span, Keyword> {
 //    | "grammar" "{" grammarContent* "}"
 //    | "(" pattern ")"
 fn pattern(input: Span) -> IResult<Span, Pattern> {
+    let (input, first) = particle(input)?;
+
+    // an exception can't be followed by an operator, since it would be unclear to what it applies
+    if matches!(
+        first,
+        Pattern::DatatypeName(DatatypeNamePattern(_, _, Some(_)))
+    ) {
+        return IResult::Ok((input, first));
+    }
+    // neither can operators be mixed without parentheses
+    for (operator, pair) in [
+        (",", Pattern::ListPair as fn(_, _) -> _),
+        ("&", Pattern::InterleavePair),
+        ("|", Pattern::ChoicePair),
+    ] {
+        let operand = preceded(
+            (space_comment0, tag(operator), space_comment0),
+            cut(particle),
+        );
+        let (input, mut operands) = many0(operand).parse(input)?;
+        if let Some(last) = operands.pop() {
+            let right = operands
+                .into_iter()
+                .rfold(last, |right, left| pair(Box::new(left), Box::new(right)));
+            return IResult::Ok((input, pair(Box::new(first), Box::new(right))));
+        }
+    }
+    IResult::Ok((input, first))
+}
+
+// a pattern without operators between patterns, but with any one following it
+fn particle(input: Span) -> IResult<Span, Pattern> {
+    let (input, result) = primary(input)?;
+
+    if matches!(
+        result,
+        Pattern::DatatypeName(DatatypeNamePattern(_, _, Some(_)))
+    ) {
+        return IResult::Ok((input, result));
+    }
+    let (input, operator) = opt(preceded(
+        space_comment0,
+        alt((tag("?"), tag("*"), tag("+"))),
+    ))
+    .parse(input)?;
+    let operator = match operator {
+        Some(operator) => operator,
+        None => return IResult::Ok((input, result)),
+    };
+    let (input, _follow_annotations) = follow_annotation_list(input)?;
+    let result = Box::new(result);
+    IResult::Ok((
+        input,
+        match *operator.fragment() {
+            "?" => Pattern::Optional(result),
+            "*" => Pattern::ZeroOrMore(result),
+            _ => Pattern::OneOrMore(result),
+        },
+    ))
+}
+
+fn primary(input: Span) -> IResult<Span, Pattern> {
     // TODO: annotations are ignored here, as well as in name-classes, grammar-content and include-content
     let (input, _annotation) = maybe_initial_annotation(input)?;
-    let (input, mut result) = alt((
+    let (input, result) = alt((
         map(element_pattern, Pattern::Element),
         map(attribute_pattern, Pattern::Attribute),
         map(list_pattern, Pattern::List),
@@ -343,49 +404,7 @@ fn pattern(input: Span) -> IResult<Span, Pattern> {
         map(group_pattern, |p| Pattern::Group(Box::new(p))),
     ))
     .parse(input)?;
-
-    let (mut input, _follow_annotations) = follow_annotation_list(input)?;
-
-    loop {
-        let (i, _) = space_comment0(input)?;
-        if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>(",")(i) {
-            let (i, _) = space_comment0(i)?;
-            let (i, right) = pattern(i)?;
-            result = Pattern::ListPair(Box::new(result), Box::new(right));
-            input = i;
-            continue;
-        }
-        if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>("&")(i) {
-            let (i, _) = space_comment0(i)?;
-            let (i, right) = pattern(i)?;
-            result = Pattern::InterleavePair(Box::new(result), Box::new(right));
-            input = i;
-            continue;
-        }
-        if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>("|")(i) {
-            let (i, _) = space_comment0(i)?;
-            let (i, right) = pattern(i)?;
-            result = Pattern::ChoicePair(Box::new(result), Box::new(right));
-            input = i;
-            continue;
-        }
-        if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>("?")(i) {
-            result = Pattern::Optional(Box::new(result));
-            input = i;
-            continue;
-        }
-        if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>("*")(i) {
-            result = Pattern::ZeroOrMore(Box::new(result));
-            input = i;
-            continue;
-        }
-        if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>("+")(i) {
-            result = Pattern::OneOrMore(Box::new(result));
-            input = i;
-            continue;
-        }
-        break;
-    }
+    let (input, _follow_annotations) = follow_annotation_list(input)?;
     IResult::Ok((input, result))
 }
 // "element" nameClass "{" pattern "}"
@@ -581,7 +600,7 @@ fn param(input: Span) -> IResult<Span, Param> {
 
 // exceptPattern     ::=   "-" pattern
 fn except_pattern(input: Span) -> IResult<Span, Pattern> {
-    let parse = (tag("-"), space_comment0, pattern);
+    let parse = (tag("-"), space_comment0, primary);
 
     let mut parser = map(parse, |(_, _, pat)| pat);
 
-- 
2.43.0


From e9d5546f6456cdf2fc07009a81082f7d6bea126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 43/80] fix: allow optional white space to be left out, and
 grammars without content, in compact schemas

---
 relaxng-syntax/src/compact.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index e6a87e4..2566ec6 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -9,7 +9,7 @@ use nom::{
     branch::alt,
     bytes::complete::{is_not, tag, take_until, take_while},
     character::complete::{char, multispace1},
-    combinator::{all_consuming, map, not, opt, peek, recognize},
+    combinator::{all_consuming, eof, map, not, opt, peek, recognize},
     multi::{fold_many0, fold_many1, many0, separated_list0},
     sequence::delimited,
 };
@@ -39,6 +39,12 @@ fn top_level(input: Span) -> IResult<Span, Schema> {
         separated_list0(space_comment1, decl),
         space_comment0, // TODO: should be space_comment1, and only required if there are decls
         alt((
+            map(peek((space_comment0, eof)), |_| {
+                PatternOrGrammar::Grammar(GrammarPattern {
+                    span: 0..0,
+                    content: vec![],
+                })
+            }),
             // TODO: proper span for GrammarPattern
             map(
                 separated_list1(space_comment1, grammar_content),
@@ -91,12 +97,11 @@ fn decl_namespace(input: Span) -> IResult<Span, NamespaceDeclaration> {
     ))
 }
 fn decl_default_namespace(input: Span) -> IResult<Span, DefaultNamespaceDeclaration> {
-    let (input, (_keyword, _, _, _, prefix, _, _, _, uri)) = (
+    let (input, (_keyword, _, _, prefix, _, _, _, uri)) = (
         tag("default"),
         space_comment1,
         tag("namespace"),
-        space_comment1,
-        opt(identifier_or_keyword),
+        opt(preceded(space_comment1, identifier_or_keyword)),
         space_comment0,
         tag("="),
         space_comment0,
@@ -411,7 +416,8 @@ fn primary(input: Span) -> IResult<Span, Pattern> {
 fn element_pattern(input: Span) -> IResult<Span, ElementPattern> {
     let parse = (
         tag("element"),
-        space_comment1,
+        not(nc_name_char),
+        space_comment0,
         name_class,
         space_comment0,
         tag("{"),
@@ -424,7 +430,7 @@ fn element_pattern(input: Span) -> IResult<Span, ElementPattern> {
 
     map(
         parse,
-        |(start, _, name_class, _, _, _, pattern, _, _, end)| ElementPattern {
+        |(start, _, _, name_class, _, _, _, pattern, _, _, end)| ElementPattern {
             span: span(start, end),
             name_class,
             pattern: Box::new(pattern),
@@ -437,7 +443,8 @@ fn element_pattern(input: Span) -> IResult<Span, ElementPattern> {
 fn attribute_pattern(input: Span) -> IResult<Span, AttributePattern> {
     let parse = (
         tag("attribute"),
-        space_comment1,
+        not(nc_name_char),
+        space_comment0,
         name_class,
         space_comment0,
         tag("{"),
@@ -450,7 +457,7 @@ fn attribute_pattern(input: Span) -> IResult<Span, AttributePattern> {
 
     map(
         parse,
-        |(start, _, name_class, _, _, _, pattern, _, _, end)| AttributePattern {
+        |(start, _, _, name_class, _, _, _, pattern, _, _, end)| AttributePattern {
             span: span(start, end),
             name_class,
             pattern: Box::new(pattern),
-- 
2.43.0


From 03f9e86184e8cb76d725c026312333bfda0183e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 44/80] fix: decode escape sequences in literals of compact
 schemas

---
 relaxng-syntax/src/compact.rs | 41 +++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 2566ec6..74605e4 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -1,7 +1,7 @@
 use crate::types::*;
 use nom::character::complete::satisfy;
 use nom::combinator::cut;
-use nom::error::{Error, ParseError};
+use nom::error::{Error, ErrorKind, ParseError};
 use nom::multi::separated_list1;
 use nom::sequence::preceded;
 use nom::{
@@ -23,7 +23,7 @@ pub type Span<'a> = LocatedSpan<&'a str>;
 
 // TODO:
 //  - annotations
-//  - utf8 escape sequences
+//  - utf8 escape sequences outside of literals
 //  - check rules are left-factored as required to avoid inefficiently rematching the same sub-rule
 //    in multiple alternatives
 
@@ -173,7 +173,7 @@ fn literal(input: Span) -> IResult<Span, Literal> {
 //                       | '"""' (['"'] ['"'] (Char - '"'))* '"""'
 //                       | "'''" (["'"] ["'"] (Char - "'"))* "'''"
 fn literal_segment(input: Span) -> IResult<Span, LiteralSegment> {
-    let (input, body) = alt((
+    let (rest, body) = alt((
         delimited(tag("\"\"\""), take_until("\"\"\""), tag("\"\"\"")),
         delimited(tag("'''"), take_until("'''"), tag("'''")),
         delimited(tag("\""), recognize(opt(is_not("\"\n"))), tag("\"")),
@@ -181,12 +181,35 @@ fn literal_segment(input: Span) -> IResult<Span, LiteralSegment> {
     ))
     .parse(input)?;
 
-    IResult::Ok((
-        input,
-        LiteralSegment {
-            body: body.to_string(),
-        },
-    ))
+    match unescape(body.fragment()) {
+        Some(body) => IResult::Ok((rest, LiteralSegment { body })),
+        None => IResult::Err(nom::Err::Failure(Error::new(input, ErrorKind::Escaped))),
+    }
+}
+
+// escapeSequence  ::=  "\" "x"+ "{" hexadecimal digits "}"
+// returns None if there's one that doesn't stand for a character
+fn unescape(text: &str) -> Option<String> {
+    let mut result = String::new();
+    let mut rest = text;
+    while let Some(pos) = rest.find("\\x") {
+        let escape = rest[pos + 1..].trim_start_matches('x');
+        let digits = escape.strip_prefix('{').and_then(|e| e.split_once('}'));
+        result.push_str(&rest[..pos]);
+        match digits {
+            Some((digits, after)) => {
+                let code = u32::from_str_radix(digits, 16).ok()?;
+                result.push(char::from_u32(code)?);
+                rest = after;
+            }
+            None => {
+                result.push_str("\\x");
+                rest = &rest[pos + 2..];
+            }
+        }
+    }
+    result.push_str(rest);
+    Some(result)
 }
 
 fn span(start: LocatedSpan<&str>, end: LocatedSpan<&str>) -> Range<usize> {
-- 
2.43.0


From afec41e25ef4bf4288a1734f746c014ff311c7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 45/80] fix: report documents which can't be read instead of
 panicking

---
 relaxng-tool/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relaxng-tool/src/main.rs b/relaxng-tool/src/main.rs
index 7028499..a8c9b96 100644
--- a/relaxng-tool/src/main.rs
+++ b/relaxng-tool/src/main.rs
@@ -29,9 +29,11 @@ fn validate(schema: PathBuf, xmls: Vec<PathBuf>) {
         }
     };
     for xml in xmls {
-        let mut f = File::open(&xml).expect("open example xml");
         let mut doc = String::new();
-        f.read_to_string(&mut doc).expect("read xml");
+        if let Err(err) = File::open(&xml).and_then(|mut f| f.read_to_string(&mut doc)) {
+            eprintln!("Could not read {xml:?}: {err}");
+            exit(2);
+        }
         let src = doc.clone();
         let reader = xmlparser::Tokenizer::from(&src[..]);
         let mut v = Validator::new(model.clone(), reader);
-- 
2.43.0


From 2f05eeb9fa6cb537850601ead0c3f8195e6f1792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 46/80] fix: keep a single alternative for elements matched in
 several ways, so validation time does not double with each

---
 relaxng-validator/src/lib.rs | 37 ++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 79ce588..ee7c8fb 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -125,6 +125,9 @@ impl Schema {
                 let Some(right) = self.without_leaves(right, &leaves) else {
                     return left;
                 };
+                if let Some(merged) = self.merge_afters(left, right) {
+                    return merged;
+                }
                 let r = self.patt(right);
                 self.push(Pat::Choice(left, right, l.is_nullable() || r.is_nullable()))
             }
@@ -159,6 +162,40 @@ impl Schema {
             _ => Some(id),
         }
     }
+    /// If operands of the two (possibly nested) choices are `After` patterns which only differ in
+    /// what has to follow, builds the choice with a single `After` in their place.  Otherwise the
+    /// number of alternatives would double with each element that can be matched in two ways.
+    fn merge_afters(&self, left: PatId, right: PatId) -> Option<PatId> {
+        let mut leaves = vec![];
+        let mut afters = HashMap::new();
+        let mut merged = false;
+        let mut todo = vec![right, left];
+        while let Some(id) = todo.pop() {
+            match self.patt(id) {
+                Pat::Choice(l, r, _) => todo.extend([r, l]),
+                Pat::After(content, follow) => match afters.get(&content) {
+                    None => {
+                        afters.insert(content, (leaves.len(), follow));
+                        leaves.push(id);
+                    }
+                    Some(&(i, other)) => {
+                        let follow = self.choice(other, follow);
+                        afters.insert(content, (i, follow));
+                        leaves[i] = self.after(content, follow);
+                        merged = true;
+                    }
+                },
+                _ => leaves.push(id),
+            }
+        }
+        if !merged {
+            return None;
+        }
+        leaves.into_iter().reduce(|left, right| {
+            let nullable = self.patt(left).is_nullable() || self.patt(right).is_nullable();
+            self.push(Pat::Choice(left, right, nullable))
+        })
+    }
     pub fn interleave(&self, left: PatId, right: PatId) -> PatId {
         match (self.patt(left), self.patt(right)) {
             (Pat::NotAllowed, _) => self.not_allowed(),
-- 
2.43.0


From fbc0f92c58481216fd733a24205b914be7bfff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 47/80] fix: allow ns and datatypeLibrary on every element of
 an XML schema

---
 relaxng-syntax/src/xml.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 0263dcd..491f1e7 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -183,7 +183,7 @@ fn tag_span(node: Node) -> Span {
 fn no_attrs_except(node: Node, names: &[&str]) -> std::result::Result<(), Error> {
     if let Some(a) = node
         .attributes()
-        .find(|a| is_rng_att(a) && !names.contains(&a.name()))
+        .find(|a| is_rng_att(a) && !is_common_att(a) && !names.contains(&a.name()))
     {
         return Err(Error::Unexpected(a.range(), "Unexpected attribute"));
     }
@@ -537,7 +537,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
     };
     if let Some(a) = node
         .attributes()
-        .find(|a| is_rng_att(a) && a.name() != "type" && a.name() != "datatypeLibrary")
+        .find(|a| is_rng_att(a) && !is_common_att(a) && a.name() != "type")
     {
         return Err(Error::Unexpected(a.range(), "Unexpected attribute"));
     }
@@ -690,7 +690,7 @@ fn start(node: Node) -> Result<Define> {
     };
     if let Some(a) = node
         .attributes()
-        .find(|a| is_rng_att(a) && a.name() != "combine")
+        .find(|a| is_rng_att(a) && !is_common_att(a) && a.name() != "combine")
     {
         return Err(Error::Unexpected(a.range(), "Unexpected attribute"));
     }
@@ -998,12 +998,20 @@ fn is_rng_att(a: &Attribute) -> bool {
     a.namespace().is_none() || is_rng(a.namespace())
 }
 
+/// Any element in the relaxng namespace may have these
+fn is_common_att(a: &Attribute) -> bool {
+    a.namespace().is_none() && (a.name() == "ns" || a.name() == "datatypeLibrary")
+}
+
 fn is_rng(ns: Option<&str>) -> bool {
     ns == Some("http://relaxng.org/ns/structure/1.0")
 }
 
 fn no_attrs(node: Node) -> Result<()> {
-    if let Some(att) = node.attributes().find(|a| is_rng_att(a)) {
+    if let Some(att) = node
+        .attributes()
+        .find(|a| is_rng_att(a) && !is_common_att(a))
+    {
         Err(Error::Unexpected(att.range(), "Unexpected attribute"))
     } else {
         Ok(())
-- 
2.43.0


From 5b6dc61a4a60468dd91d49c810b20fb8c81c964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 48/80] fix: do not report elements in definitions which an
 attribute does not refer to

---
 relaxng-model/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index ea82805..c504576 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -698,6 +698,8 @@ impl<'a> Context<'a> {
         match self {
             Context::Root { .. } => None,
             Context::Attribute { span, .. } => Some(*span),
+            // nothing is known about whether the attribute refers to other definitions of a grammar
+            Context::Define { id, .. } if id.1 != "start" => None,
             Context::Include { parent, .. }
             | Context::Grammar { parent, .. }
             | Context::IncludeOverrides { parent }
-- 
2.43.0


From 8ef9f6b8075a16d7deaac400f94fbaa6184d28a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 49/80] fix: replace references in namespace declarations of
 documents

---
 relaxng-validator/src/lib.rs | 64 +++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index ee7c8fb..dda0ca8 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -522,9 +522,9 @@ impl Schema {
     }
 }
 
-fn is_ns_match(namespace_uri: &str, target_namespace: Option<&StrSpan>) -> bool {
+fn is_ns_match(namespace_uri: &str, target_namespace: Option<&Uri>) -> bool {
     if let Some(target_namespace) = target_namespace {
-        target_namespace.as_str() == namespace_uri
+        target_namespace.data == namespace_uri
     } else {
         namespace_uri.is_empty()
     }
@@ -536,7 +536,7 @@ fn contains(nc: &model::NameClass, target_name: QualifiedName) -> bool {
             name,
         } => {
             if let Some(ref target_namespace) = target_name.namespace_uri {
-                target_namespace.as_str() == namespace_uri
+                target_namespace.data == namespace_uri
                     && target_name.local_name.as_str() == name
             } else {
                 namespace_uri.is_empty() && target_name.local_name.as_str() == name
@@ -564,22 +564,36 @@ fn contains(nc: &model::NameClass, target_name: QualifiedName) -> bool {
     }
 }
 
+/// A namespace URI, as written and with references replaced
 #[derive(Copy, Clone, Debug)]
-struct QualifiedName<'a> {
-    namespace_uri: Option<StrSpan<'a>>,
+struct Uri<'a, 'b> {
+    span: StrSpan<'a>,
+    data: &'b str,
+}
+
+#[derive(Copy, Clone, Debug)]
+struct QualifiedName<'a, 'b> {
+    namespace_uri: Option<Uri<'a, 'b>>,
     local_name: StrSpan<'a>,
 }
 
-impl PartialEq for QualifiedName<'_> {
+impl<'a> QualifiedName<'a, '_> {
+    fn namespace_span(&self) -> StrSpan<'a> {
+        self.namespace_uri
+            .map_or_else(|| StrSpan::from(""), |uri| uri.span)
+    }
+}
+
+impl PartialEq for QualifiedName<'_, '_> {
     fn eq(&self, other: &Self) -> bool {
-        let uri = |name: &Self| name.namespace_uri.map_or("", |uri| uri.as_str());
+        let uri = |name: &Self| name.namespace_uri.map_or("", |uri| uri.data);
         uri(self) == uri(other) && self.local_name.as_str() == other.local_name.as_str()
     }
 }
 
 #[derive(Copy, Clone, Debug)]
 struct Attr<'a, 'b> {
-    name: QualifiedName<'a>,
+    name: QualifiedName<'a, 'b>,
     value: StrSpan<'a>,
     data: &'b str,
     span: StrSpan<'a>,
@@ -967,7 +981,7 @@ impl<'a> Validator<'a> {
         let next_pat = match schema.patt(next_pat) {
             Pat::NotAllowed => {
                 return Err(ValidatorError::NotAllowed(Token::ElementStart {
-                    prefix: name.namespace_uri.unwrap_or_else(|| StrSpan::from("")),
+                    prefix: name.namespace_span(),
                     local: name.local_name,
                     span: name.local_name,
                 }));
@@ -979,7 +993,7 @@ impl<'a> Validator<'a> {
                     if attributes[..i].iter().any(|other| other.name == att.name) {
                         // different prefixes for the same namespace
                         return Err(ValidatorError::NotAllowed(Token::Attribute {
-                            prefix: att.name.namespace_uri.unwrap_or_else(|| StrSpan::from("")),
+                            prefix: att.name.namespace_span(),
                             local: att.name.local_name,
                             value: att.value,
                             span: att.span,
@@ -989,7 +1003,7 @@ impl<'a> Validator<'a> {
                     pat = Self::att_deriv(&mut memo, pat, schema, att);
                     if let Pat::NotAllowed = schema.patt(pat) {
                         return Err(ValidatorError::NotAllowed(Token::Attribute {
-                            prefix: att.name.namespace_uri.unwrap_or_else(|| StrSpan::from("")),
+                            prefix: att.name.namespace_span(),
                             local: att.name.local_name,
                             value: att.value,
                             span: att.span,
@@ -1100,7 +1114,7 @@ impl<'a> Validator<'a> {
         }
     }
 
-    fn start_tag_open_deriv(current: Pat, schema: &mut Schema, name: QualifiedName<'a>) -> PatId {
+    fn start_tag_open_deriv(current: Pat, schema: &mut Schema, name: QualifiedName) -> PatId {
         match current {
             Pat::Choice(l, r, _) => {
                 let left = schema.patt(l);
@@ -1711,7 +1725,7 @@ struct ElementStack<'a> {
 }
 
 impl<'a> ElementStack<'a> {
-    fn lookup_namespace_uri(&self, prefix: &str) -> Option<StrSpan<'a>> {
+    fn lookup_namespace_uri(&self, prefix: &str) -> Option<Uri<'a, '_>> {
         self.elements
             .iter()
             .rev()
@@ -1721,14 +1735,17 @@ impl<'a> ElementStack<'a> {
     fn try_lookup_namespace_uri(
         &self,
         prefix: StrSpan<'a>,
-    ) -> Result<Option<StrSpan<'a>>, ValidatorError<'a>> {
+    ) -> Result<Option<Uri<'a, '_>>, ValidatorError<'a>> {
         if "" == prefix.as_str() {
             // an empty URI undeclares the default namespace
             Ok(self
                 .lookup_namespace_uri(&prefix)
-                .filter(|uri| !uri.as_str().is_empty()))
+                .filter(|uri| !uri.data.is_empty()))
         } else if "xml" == prefix.as_str() {
-            Ok(Some(StrSpan::from(XML_NAMESPACE)))
+            Ok(Some(Uri {
+                span: StrSpan::from(XML_NAMESPACE),
+                data: XML_NAMESPACE,
+            }))
         } else {
             Ok(Some(self.lookup_namespace_uri(&prefix).ok_or(
                 ValidatorError::UndefinedNamespacePrefix { prefix },
@@ -1786,7 +1803,7 @@ impl<'a> ElementStack<'a> {
                 att.prefix.as_str() == prefix.as_str() && att.local.as_str() == local.as_str()
             })
         };
-        let is_undeclaration = prefix.as_str() == "xmlns" && value.as_str().is_empty();
+        let is_undeclaration = prefix.as_str() == "xmlns" && data.is_empty();
         if is_duplicate || is_undeclaration {
             return false;
         }
@@ -1794,11 +1811,13 @@ impl<'a> ElementStack<'a> {
             self.elements.last_mut().unwrap().namespaces.push(Ns {
                 prefix: local,
                 namespace_uri: value,
+                data,
             })
         } else if prefix.as_str() == "" && local.as_str() == "xmlns" {
             self.elements.last_mut().unwrap().namespaces.push(Ns {
                 prefix,
                 namespace_uri: value,
+                data,
             })
         } else {
             self.elements
@@ -1815,7 +1834,7 @@ impl<'a> ElementStack<'a> {
         }
         true
     }
-    fn current_element(&self) -> Result<QualifiedName<'a>, ValidatorError<'a>> {
+    fn current_element(&self) -> Result<QualifiedName<'a, '_>, ValidatorError<'a>> {
         let curr = self.elements.last().unwrap();
         let namespace_uri = self.try_lookup_namespace_uri(curr.prefix)?;
         Ok(QualifiedName {
@@ -1871,17 +1890,22 @@ impl<'a> ElementState<'a> {
             .iter()
             .any(|ns| ns.prefix.as_str() == prefix)
     }
-    fn lookup_namespace_uri(&self, prefix: &str) -> Option<StrSpan<'a>> {
+    fn lookup_namespace_uri(&self, prefix: &str) -> Option<Uri<'a, '_>> {
         self.namespaces
             .iter()
             .find(|ns| ns.prefix.as_str() == prefix)
-            .map(|ns| ns.namespace_uri)
+            .map(|ns| Uri {
+                span: ns.namespace_uri,
+                data: &ns.data,
+            })
     }
 }
 
 struct Ns<'a> {
     prefix: StrSpan<'a>,
     namespace_uri: StrSpan<'a>,
+    /// The URI, with references replaced
+    data: String,
 }
 
 #[cfg(test)]
-- 
2.43.0


From 621d99d0af95f7b73fc214f5a42776fd713b22e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 50/80] fix: accept parentheses around the grammar of an
 included compact schema

---
 relaxng-model/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index c504576..ef678fb 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1370,6 +1370,13 @@ impl<FS: Files> Compiler<FS> {
         match schema.pattern_or_grammar {
             types::PatternOrGrammar::Pattern(ref p) => {
                 if let Context::Include { .. } = ctx {
+                    let mut p = p;
+                    if let Syntax::Compact = self.syntax {
+                        // parentheses are not part of the pattern
+                        while let types::Pattern::Group(inner) = p {
+                            p = inner;
+                        }
+                    }
                     match p {
                         types::Pattern::Grammar(grammar) => {
                             // when including a file containing a grammar definition, we don't require
-- 
2.43.0


From 85eee82512fc86dbaede92e42ad3298073ddae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 51/80] fix: do not take a pattern with an annotated name for
 an annotation

---
 relaxng-syntax/src/compact.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 74605e4..8c992f1 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -9,7 +9,7 @@ use nom::{
     branch::alt,
     bytes::complete::{is_not, tag, take_until, take_while},
     character::complete::{char, multispace1},
-    combinator::{all_consuming, eof, map, not, opt, peek, recognize},
+    combinator::{all_consuming, eof, map, not, opt, peek, recognize, verify},
     multi::{fold_many0, fold_many1, many0, separated_list0},
     sequence::delimited,
 };
@@ -764,7 +764,7 @@ fn grammar_content(input: Span) -> IResult<Span, GrammarContent> {
         map(define, GrammarContent::Define),
         map(div_grammar_content, GrammarContent::Div),
         map(include, GrammarContent::Include),
-        map(annotation_element, GrammarContent::Annotation),
+        map(annotation_element_not_keyword, GrammarContent::Annotation),
     ))
     .parse(input)
 }
@@ -900,7 +900,7 @@ fn inherit(input: Span) -> IResult<Span, Inherit> {
 fn include_content(input: Span) -> IResult<Span, IncludeContent> {
     let (input, _annotation) = maybe_initial_annotation(input)?;
     alt((
-        map(annotation_element, IncludeContent::Annotation),
+        map(annotation_element_not_keyword, IncludeContent::Annotation),
         map(define, IncludeContent::Define),
         map(start, IncludeContent::Define),
         map(div_include_content, IncludeContent::Div),
@@ -1020,6 +1020,17 @@ fn annotation_element(input: Span) -> IResult<Span, AnnotationElement> {
     parser.parse(input)
 }
 
+// within a grammar, the name of an annotation element which is a keyword has to be quoted
+fn annotation_element_not_keyword(input: Span) -> IResult<Span, AnnotationElement> {
+    verify(annotation_element, |element| {
+        !matches!(
+            element.name,
+            Name::Identifier(IdentifierOrKeyword::Keyword(_))
+        )
+    })
+    .parse(input)
+}
+
 fn annotation_element_or_literal(input: Span) -> IResult<Span, AnnotationElementOrLiteral> {
     let mut parser = alt((
         map(annotation_element, AnnotationElementOrLiteral::Element),
-- 
2.43.0


From f3405cf83b5fb506a4e2e7f91f1b92fbd3c75732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 52/80] fix: ignore undefined references, and elements within
 attributes, in overridden definitions

---
 relaxng-model/src/lib.rs | 45 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index ef678fb..21665ef 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -584,6 +584,45 @@ impl<'a> Context<'a> {
         }
     }
 
+    /// Is a definition of the given name replaced by the overrides of an include?
+    fn is_overridden(&self, id: &str) -> bool {
+        match self {
+            Context::Include {
+                parent, overrides, ..
+            } => overrides.borrow().contains_key(id) || parent.is_overridden(id),
+            Context::IncludeOverrides { parent } => parent.includer().is_overridden(id),
+            _ => false,
+        }
+    }
+
+    /// The names which are defined or referred to so far in the grammar
+    fn ref_names(&self) -> HashSet<String> {
+        match self {
+            Context::Root { refs, .. } | Context::Grammar { refs, .. } => {
+                refs.borrow().keys().cloned().collect()
+            }
+            Context::Include { parent, .. }
+            | Context::IncludeOverrides { parent }
+            | Context::Define { parent, .. }
+            | Context::Element { parent }
+            | Context::Attribute { parent, .. } => parent.ref_names(),
+        }
+    }
+
+    /// Forget about references to other names than the given ones
+    fn retain_refs(&self, names: &HashSet<String>) {
+        match self {
+            Context::Root { refs, .. } | Context::Grammar { refs, .. } => {
+                refs.borrow_mut().retain(|name, _| names.contains(name))
+            }
+            Context::Include { parent, .. }
+            | Context::IncludeOverrides { parent }
+            | Context::Define { parent, .. }
+            | Context::Element { parent }
+            | Context::Attribute { parent, .. } => parent.retain_refs(names),
+        }
+    }
+
     fn get_ref(
         &self,
         ref_id: &str,
@@ -700,6 +739,7 @@ impl<'a> Context<'a> {
             Context::Attribute { span, .. } => Some(*span),
             // nothing is known about whether the attribute refers to other definitions of a grammar
             Context::Define { id, .. } if id.1 != "start" => None,
+            Context::Define { parent, id } if parent.is_overridden(&id.1) => None,
             Context::Include { parent, .. }
             | Context::Grammar { parent, .. }
             | Context::IncludeOverrides { parent }
@@ -1436,6 +1476,8 @@ impl<FS: Files> Compiler<FS> {
     ) -> Result<(), RelaxError> {
         let mut def_ctx = ctx.new_define(&define.1);
         let id = (define.1).1.clone();
+        // only the references of definitions which are part of the schema have to be defined
+        let refs = ctx.is_overridden(&id).then(|| ctx.ref_names());
         let rule = self.compile_pattern(&mut def_ctx, &define.3)?;
         let span = ctx.convert_span(&(define.1).0);
         let new_rule = match define.2 {
@@ -1452,6 +1494,9 @@ impl<FS: Files> Compiler<FS> {
             ),
         };
         ctx.define(&id, new_rule)?;
+        if let Some(refs) = refs {
+            ctx.retain_refs(&refs);
+        }
         Ok(())
     }
     fn compile_grammar_div(
-- 
2.43.0


From 1e56f9d97a6f3c7cb835e62e674cc4ae9be2e018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 53/80] fix: reject decimal numbers with a sign after the
 decimal point

---
 relaxng-model/src/datatype/xsd.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 67ce0dc..77a1cbf 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -205,8 +205,8 @@ impl super::Datatype for XsdDatatypes {
     }
 }
 
-// The libraries' parsers also allow digits to be separated by '_', exponents in decimal numbers, and
-// names of infinity and NaN other than those of XML Schema.  These functions hide such notations
+// The libraries' parsers also allow digits to be separated by '_', exponents and signs of the fraction
+// in decimal numbers, and names of infinity and NaN other than those of XML Schema.  These functions hide such notations
 // from them.
 
 fn parse_integer<T: FromStr>(text: &str) -> Result<T, T::Err> {
@@ -218,7 +218,8 @@ fn parse_integer<T: FromStr>(text: &str) -> Result<T, T::Err> {
 }
 
 fn parse_decimal(text: &str) -> Result<bigdecimal::BigDecimal, bigdecimal::ParseBigDecimalError> {
-    if text.contains(['_', 'e', 'E']) {
+    let misplaced_sign = text.rfind(['+', '-']).is_some_and(|i| i > 0);
+    if text.contains(['_', 'e', 'E']) || misplaced_sign {
         bigdecimal::BigDecimal::from_str("")
     } else {
         bigdecimal::BigDecimal::from_str(text)
-- 
2.43.0


From f75ae6778e90433135618ae6a25a080c4cd73a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 54/80] fix: accept characters in anyURI which are escaped in
 the URI

---
 relaxng-model/src/datatype/xsd.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 77a1cbf..acd070a 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -173,7 +173,7 @@ impl super::Datatype for XsdDatatypes {
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::AnyURI(patt) => {
-                uriparse::URIReference::try_from(value).is_ok()
+                is_valid_uri_reference(value)
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Language(patt) => {
@@ -205,9 +205,9 @@ impl super::Datatype for XsdDatatypes {
     }
 }
 
-// The libraries' parsers also allow digits to be separated by '_', exponents and signs of the fraction
-// in decimal numbers, and names of infinity and NaN other than those of XML Schema.  These functions hide such notations
-// from them.
+// The libraries' parsers also allow digits to be separated by '_', exponents and signs within decimal
+// numbers, and names of infinity and NaN other than those of XML Schema.  These functions hide such
+// notations from them.
 
 fn parse_integer<T: FromStr>(text: &str) -> Result<T, T::Err> {
     if text.contains('_') {
@@ -234,6 +234,27 @@ fn parse_double(text: &str) -> Result<f64, std::num::ParseFloatError> {
     }
 }
 
+/// Per https://www.w3.org/TR/xmlschema-2/#anyURI , the characters which may not be part of a URI are
+/// escaped before checking that it is one.
+fn is_valid_uri_reference(value: &str) -> bool {
+    let mut uri = String::new();
+    if value.starts_with('/') {
+        // uriparse does not expect a ':' in the first segment of the path without a scheme, although
+        // that's only ambiguous for relative paths
+        uri.push_str("x:");
+    }
+    for c in value.chars() {
+        if c.is_ascii_graphic() && !"<>\"{}|\\^`".contains(c) {
+            uri.push(c);
+        } else {
+            for byte in c.encode_utf8(&mut [0; 4]).bytes() {
+                uri.push_str(&format!("%{byte:02X}"));
+            }
+        }
+    }
+    uriparse::URIReference::try_from(&uri[..]).is_ok()
+}
+
 fn is_valid_ncname(text: &str) -> bool {
     match relaxng_syntax::compact::nc_name(relaxng_syntax::compact::Span::new(text)) {
         Ok((rest, _name)) => rest.fragment().is_empty(),
-- 
2.43.0


From ce3f17ffbf5057e190859cda1c476264f77224f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 55/80] fix: interpret the pattern facet as regular expression
 of XML Schema

---
 relaxng-model/src/datatype/xsd.rs | 96 ++++++++++++++++++++++++++++++-
 1 file changed, 94 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index acd070a..8a450a7 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -664,6 +664,97 @@ impl PatternFacet {
     }
 }
 
+const NAME_START_CHARS: &str = r"_:A-Za-z\u{C0}-\u{D6}\u{D8}-\u{F6}\u{F8}-\u{2FF}\u{370}-\u{37D}\u{37F}-\u{1FFF}\u{200C}-\u{200D}\u{2070}-\u{218F}\u{2C00}-\u{2FEF}\u{3001}-\u{D7FF}\u{F900}-\u{FDCF}\u{FDF0}-\u{FFFD}\u{10000}-\u{EFFFF}";
+const NAME_EXTRA_CHARS: &str = r"\-.0-9\u{B7}\u{300}-\u{36F}\u{203F}-\u{2040}";
+
+/// Translates a regular expression of XML Schema ( https://www.w3.org/TR/xmlschema-2/#regexs ) into
+/// one for the `regex` crate, where the two differ.
+fn translate_pattern(pattern: &str) -> String {
+    let chars: Vec<char> = pattern.chars().collect();
+    let mut out = String::new();
+    let mut i = 0;
+    while i < chars.len() {
+        match chars[i] {
+            // there are no anchors
+            c @ ('^' | '$') => {
+                out.push('\\');
+                out.push(c);
+            }
+            '.' => out.push_str(r"[^\n\r]"),
+            '[' => {
+                let (class, next) = translate_class(&chars, i + 1);
+                out.push_str(&class);
+                i = next;
+                continue;
+            }
+            '\\' => {
+                i += 1;
+                translate_escape(chars.get(i), &mut out);
+            }
+            c => out.push(c),
+        }
+        i += 1;
+    }
+    out
+}
+
+/// Translates the character class which starts behind the given `[`, and returns the position which
+/// follows the class as well.
+fn translate_class(chars: &[char], start: usize) -> (String, usize) {
+    let mut i = start;
+    let mut class = String::from("[");
+    if chars.get(i) == Some(&'^') {
+        class.push('^');
+        i += 1;
+    }
+    let first = i;
+    while i < chars.len() {
+        match chars[i] {
+            ']' => {
+                class.push(']');
+                return (class, i + 1);
+            }
+            '-' if i > first && chars.get(i + 1) == Some(&'[') => {
+                let (subtracted, next) = translate_class(chars, i + 2);
+                class = format!("[{class}]--{subtracted}");
+                i = next;
+                continue;
+            }
+            '-' if i > first && chars.get(i + 1) != Some(&']') => class.push('-'),
+            '\\' => {
+                i += 1;
+                translate_escape(chars.get(i), &mut class);
+            }
+            c => {
+                // some characters are operators of the other syntax
+                if c.is_ascii_punctuation() {
+                    class.push('\\');
+                }
+                class.push(c);
+            }
+        }
+        i += 1;
+    }
+    (class, i)
+}
+
+fn translate_escape(escaped: Option<&char>, out: &mut String) {
+    match escaped {
+        Some('i') => out.push_str(&format!("[{NAME_START_CHARS}]")),
+        Some('I') => out.push_str(&format!("[^{NAME_START_CHARS}]")),
+        Some('c') => out.push_str(&format!("[{NAME_START_CHARS}{NAME_EXTRA_CHARS}]")),
+        Some('C') => out.push_str(&format!("[^{NAME_START_CHARS}{NAME_EXTRA_CHARS}]")),
+        Some('s') => out.push_str(r"[ \t\n\r]"),
+        Some('S') => out.push_str(r"[^ \t\n\r]"),
+        Some('w') => out.push_str(r"[^\p{P}\p{Z}\p{C}]"),
+        Some('W') => out.push_str(r"[\p{P}\p{Z}\p{C}]"),
+        other => {
+            out.push('\\');
+            out.extend(other);
+        }
+    }
+}
+
 #[derive(Default)]
 pub struct Compiler;
 impl super::DatatypeCompiler for Compiler {
@@ -1559,9 +1650,10 @@ impl Compiler {
         pattern: &mut Option<PatternFacet>,
     ) -> Result<(), FacetError> {
         let text = param.3.as_string_value();
-        let regex = regex::Regex::new(&text)
+        let translated = translate_pattern(&text);
+        let regex = regex::Regex::new(&translated)
             // the pattern must match the whole value, rather than some part of it
-            .and_then(|_| regex::Regex::new(&format!(r"\A(?:{text})\z")))
+            .and_then(|_| regex::Regex::new(&format!(r"\A(?:{translated})\z")))
             .map_err(|e| FacetError::InvalidPattern(ctx.convert_span(&param.0), e))?;
         let others = pattern.take().map(Box::new);
         *pattern = Some(PatternFacet(text, regex, others));
-- 
2.43.0


From e070a0da1c6225e6e5ae5df1c82bf6531f848243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 56/80] fix: accept categories in character classes of XML
 Schema patterns

---
 relaxng-model/src/datatype/xsd.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 8a450a7..2109164 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -724,6 +724,13 @@ fn translate_class(chars: &[char], start: usize) -> (String, usize) {
             '\\' => {
                 i += 1;
                 translate_escape(chars.get(i), &mut class);
+                if matches!(chars.get(i), Some('p' | 'P')) && chars.get(i + 1) == Some(&'{') {
+                    // the name of a category of characters
+                    while i + 1 < chars.len() && chars[i] != '}' {
+                        i += 1;
+                        class.push(chars[i]);
+                    }
+                }
             }
             c => {
                 // some characters are operators of the other syntax
-- 
2.43.0


From 5b3fb82d45010ef10f8f518993e4a5d579d9b72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 57/80] fix: reject patterns which are not regular expressions
 of XML Schema

---
 relaxng-model/src/datatype/xsd.rs | 59 ++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 2109164..8a5b557 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -669,12 +669,26 @@ const NAME_EXTRA_CHARS: &str = r"\-.0-9\u{B7}\u{300}-\u{36F}\u{203F}-\u{2040}";
 
 /// Translates a regular expression of XML Schema ( https://www.w3.org/TR/xmlschema-2/#regexs ) into
 /// one for the `regex` crate, where the two differ.
-fn translate_pattern(pattern: &str) -> String {
+fn translate_pattern(pattern: &str) -> Result<String, regex::Error> {
     let chars: Vec<char> = pattern.chars().collect();
     let mut out = String::new();
+    let mut quantifiable = false;
     let mut i = 0;
     while i < chars.len() {
+        // a quantifier applies to a character, a class or a group
+        let quantifier = matches!(chars[i], '?' | '*' | '+' | '{');
+        if quantifier && !quantifiable {
+            return Err(invalid_pattern("misplaced quantifier"));
+        }
+        quantifiable = !quantifier && !matches!(chars[i], '(' | '|');
         match chars[i] {
+            '{' => {
+                let end = chars[i..].iter().position(|c| *c == '}');
+                let end = i + end.ok_or_else(|| invalid_pattern("unclosed quantifier"))?;
+                out.extend(&chars[i..=end]);
+                i = end;
+            }
+            ']' => return Err(invalid_pattern("unopened character class")),
             // there are no anchors
             c @ ('^' | '$') => {
                 out.push('\\');
@@ -682,25 +696,33 @@ fn translate_pattern(pattern: &str) -> String {
             }
             '.' => out.push_str(r"[^\n\r]"),
             '[' => {
-                let (class, next) = translate_class(&chars, i + 1);
+                let (class, next) = translate_class(&chars, i + 1)?;
                 out.push_str(&class);
                 i = next;
                 continue;
             }
             '\\' => {
                 i += 1;
-                translate_escape(chars.get(i), &mut out);
+                translate_escape(chars.get(i), &mut out)?;
+                if matches!(chars[i], 'p' | 'P') && chars.get(i + 1) == Some(&'{') {
+                    i += 1;
+                    out.push('{');
+                }
             }
             c => out.push(c),
         }
         i += 1;
     }
-    out
+    Ok(out)
+}
+
+fn invalid_pattern(message: &str) -> regex::Error {
+    regex::Error::Syntax(message.to_string())
 }
 
 /// Translates the character class which starts behind the given `[`, and returns the position which
 /// follows the class as well.
-fn translate_class(chars: &[char], start: usize) -> (String, usize) {
+fn translate_class(chars: &[char], start: usize) -> Result<(String, usize), regex::Error> {
     let mut i = start;
     let mut class = String::from("[");
     if chars.get(i) == Some(&'^') {
@@ -712,10 +734,11 @@ fn translate_class(chars: &[char], start: usize) -> (String, usize) {
         match chars[i] {
             ']' => {
                 class.push(']');
-                return (class, i + 1);
+                return Ok((class, i + 1));
             }
+            '[' => return Err(invalid_pattern("misplaced character class")),
             '-' if i > first && chars.get(i + 1) == Some(&'[') => {
-                let (subtracted, next) = translate_class(chars, i + 2);
+                let (subtracted, next) = translate_class(chars, i + 2)?;
                 class = format!("[{class}]--{subtracted}");
                 i = next;
                 continue;
@@ -723,7 +746,7 @@ fn translate_class(chars: &[char], start: usize) -> (String, usize) {
             '-' if i > first && chars.get(i + 1) != Some(&']') => class.push('-'),
             '\\' => {
                 i += 1;
-                translate_escape(chars.get(i), &mut class);
+                translate_escape(chars.get(i), &mut class)?;
                 if matches!(chars.get(i), Some('p' | 'P')) && chars.get(i + 1) == Some(&'{') {
                     // the name of a category of characters
                     while i + 1 < chars.len() && chars[i] != '}' {
@@ -742,10 +765,10 @@ fn translate_class(chars: &[char], start: usize) -> (String, usize) {
         }
         i += 1;
     }
-    (class, i)
+    Err(invalid_pattern("unclosed character class"))
 }
 
-fn translate_escape(escaped: Option<&char>, out: &mut String) {
+fn translate_escape(escaped: Option<&char>, out: &mut String) -> Result<(), regex::Error> {
     match escaped {
         Some('i') => out.push_str(&format!("[{NAME_START_CHARS}]")),
         Some('I') => out.push_str(&format!("[^{NAME_START_CHARS}]")),
@@ -755,11 +778,13 @@ fn translate_escape(escaped: Option<&char>, out: &mut String) {
         Some('S') => out.push_str(r"[^ \t\n\r]"),
         Some('w') => out.push_str(r"[^\p{P}\p{Z}\p{C}]"),
         Some('W') => out.push_str(r"[\p{P}\p{Z}\p{C}]"),
-        other => {
+        Some(&c) if "nrtdDpP".contains(c) || c.is_ascii_punctuation() => {
             out.push('\\');
-            out.extend(other);
+            out.push(c);
         }
+        _ => return Err(invalid_pattern("unknown escape sequence")),
     }
+    Ok(())
 }
 
 #[derive(Default)]
@@ -1657,10 +1682,12 @@ impl Compiler {
         pattern: &mut Option<PatternFacet>,
     ) -> Result<(), FacetError> {
         let text = param.3.as_string_value();
-        let translated = translate_pattern(&text);
-        let regex = regex::Regex::new(&translated)
-            // the pattern must match the whole value, rather than some part of it
-            .and_then(|_| regex::Regex::new(&format!(r"\A(?:{translated})\z")))
+        let regex = translate_pattern(&text)
+            .and_then(|translated| {
+                regex::Regex::new(&translated)?;
+                // the pattern must match the whole value, rather than some part of it
+                regex::Regex::new(&format!(r"\A(?:{translated})\z"))
+            })
             .map_err(|e| FacetError::InvalidPattern(ctx.convert_span(&param.0), e))?;
         let others = pattern.take().map(Box::new);
         *pattern = Some(PatternFacet(text, regex, others));
-- 
2.43.0


From 78f81d97942a5bfdc90cf6d5c7ddea6a0c4ba35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 58/80] fix: list only the elements which may follow the text
 as expected

---
 relaxng-validator/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index dda0ca8..59c59f4 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -965,7 +965,11 @@ impl<'a> Validator<'a> {
         }
         match (self.schema.patt(next_id), text) {
             (Pat::NotAllowed, Some(text)) => Err(ValidatorError::NotAllowed(text.first)),
-            _ => Ok(next_id),
+            _ => {
+                // what is expected in place of the end tag has to follow the text
+                self.current_step = next_id;
+                Ok(next_id)
+            }
         }
     }
 
-- 
2.43.0


From 844c7391cd67b7eaee2320de3780faaa37aa6ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 59/80] fix: reject reserved namespaces, prefixes and
 processing instruction targets, and names starting with a colon

---
 relaxng-validator/src/lib.rs | 40 ++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 59c59f4..63890e1 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -751,9 +751,18 @@ impl<'a> Validator<'a> {
     fn validate(&mut self, evt: Token<'a>) -> Result<(), ValidatorError<'a>> {
         let pat = self.schema.patt(self.current_step);
         let new = match evt {
-            Token::EmptyDtd { .. }
-            | Token::Comment { .. }
-            | Token::ProcessingInstruction { .. } => {
+            Token::EmptyDtd { .. } | Token::Comment { .. } => {
+                // does not change current_step state
+                return Ok(());
+            }
+            Token::ProcessingInstruction {
+                target, content, ..
+            } => {
+                // the tokenizer neither reserves the target, nor demands a space behind it
+                let is_reserved = target.as_str().eq_ignore_ascii_case("xml");
+                if is_reserved || content.is_some_and(|text| text.start() == target.end()) {
+                    return Err(ValidatorError::NotAllowed(evt));
+                }
                 // does not change current_step state
                 return Ok(());
             }
@@ -762,6 +771,9 @@ impl<'a> Validator<'a> {
                 local,
                 span,
             } => {
+                if is_missing_prefix(prefix) {
+                    return Err(ValidatorError::NotAllowed(evt));
+                }
                 self.flush_text()?;
                 self.stack.push(prefix, local, span);
                 // does not change current_step state
@@ -804,7 +816,7 @@ impl<'a> Validator<'a> {
                         Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?
                     }
                     ElementEnd::Close(prefix, local) => {
-                        if !self.stack.is_current(prefix, local) {
+                        if is_missing_prefix(prefix) || !self.stack.is_current(prefix, local) {
                             return Err(ValidatorError::NotAllowed(evt));
                         }
                         let next_id = self.end_of_content_deriv()?;
@@ -1711,6 +1723,12 @@ fn is_xml_char(c: char) -> bool {
     matches!(c, '\x09' | '\x0a' | '\x0d' | '\x20'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
 }
 
+/// Whether there is nothing before the colon of a name.  (For a name without a colon, the prefix
+/// given by the tokenizer has no position.)
+fn is_missing_prefix(prefix: StrSpan) -> bool {
+    prefix.as_str().is_empty() && prefix.start() > 0
+}
+
 fn is_whitespace_char(c: char) -> bool {
     ['\x20', '\x09', '\x0d', '\x0a'].contains(&c)
 }
@@ -1722,6 +1740,9 @@ fn is_whitespace_str(s: &str) -> bool {
 /// The namespace which the `xml` prefix is bound to without being declared
 const XML_NAMESPACE: &str = "http://www.w3.org/XML/1998/namespace";
 
+/// The namespace of namespace declarations, which no prefix can be declared for
+const XMLNS_NAMESPACE: &str = "http://www.w3.org/2000/xmlns/";
+
 #[derive(Default)]
 struct ElementStack<'a> {
     elements: Vec<ElementState<'a>>,
@@ -1788,7 +1809,8 @@ impl<'a> ElementStack<'a> {
         })
     }
     /// Returns false if the attribute is not allowed in a well-formed document (the element already
-    /// has an attribute of that name, or it would undeclare a prefix)
+    /// has an attribute of that name, its name starts with a colon, or it would undeclare a prefix or
+    /// give a reserved prefix or namespace another meaning)
     fn add_attr(
         &mut self,
         prefix: StrSpan<'a>,
@@ -1808,7 +1830,13 @@ impl<'a> ElementStack<'a> {
             })
         };
         let is_undeclaration = prefix.as_str() == "xmlns" && data.is_empty();
-        if is_duplicate || is_undeclaration {
+        let is_reserved = match (prefix.as_str(), local.as_str()) {
+            ("xmlns", "xml") => data != XML_NAMESPACE,
+            ("xmlns", "xmlns") => true,
+            ("xmlns", _) | ("", "xmlns") => [XML_NAMESPACE, XMLNS_NAMESPACE].contains(&&*data),
+            _ => false,
+        };
+        if is_duplicate || is_undeclaration || is_reserved || is_missing_prefix(prefix) {
             return false;
         }
         if prefix.as_str() == "xmlns" {
-- 
2.43.0


From 2b0dcd2e172d1b1f8dd2481f35b4b22d3268774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 60/80] fix: reject malformed references in the values of
 entities, and keep parameter entities apart

---
 relaxng-validator/src/lib.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 63890e1..1cc33a1 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -850,10 +850,21 @@ impl<'a> Validator<'a> {
             Token::EntityDeclaration {
                 name,
                 definition,
-                span: _,
+                span,
             } => {
                 match definition {
                     EntityDefinition::EntityValue(val) => {
+                        // references must be well-formed, even if the entity is never used
+                        for reference in parse_entities(val.start(), val.as_str()) {
+                            reference?;
+                        }
+                        if val.contains('%') || !val.chars().all(is_xml_char) {
+                            return Err(ValidatorError::NotAllowed(evt));
+                        }
+                        // parameter entities have names of their own
+                        if span[..name.start() - span.start()].contains('%') {
+                            return Ok(());
+                        }
                         // if there are several declarations of an entity, the first is binding
                         self.entity_definitions
                             .entry(name.to_string())
@@ -889,8 +900,18 @@ impl<'a> Validator<'a> {
         is_attribute: bool,
         out: &mut Expansion<'a>,
     ) -> Result<(), ValidatorError<'a>> {
+        let in_entity = !out.open_entities.is_empty();
         for val in parse_entities(text.start(), text.as_str()) {
             match val? {
+                // no markup may get into the values of attributes
+                Txt::Text(pos, val) if is_attribute && in_entity && val.contains('<') => {
+                    let span = pos..pos + val.len();
+                    return Err(ValidatorError::InvalidOrUnclosedEntity { span });
+                }
+                Txt::Char(pos, '<') if is_attribute && in_entity => {
+                    let span = pos..pos + 1;
+                    return Err(ValidatorError::InvalidOrUnclosedEntity { span });
+                }
                 Txt::Text(_pos, val) if is_attribute => out
                     .buffer
                     .push_str(&normalize_newlines(val).replace(is_whitespace_char, " ")),
-- 
2.43.0


From e216384c110cbaa5a7b9ce7074b15a47729eb855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 61/80] fix: accept a byte order mark at the start of schemas
 in the compact syntax

---
 relaxng-syntax/src/compact.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 8c992f1..dcba228 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -28,9 +28,11 @@ pub type Span<'a> = LocatedSpan<&'a str>;
 //    in multiple alternatives
 
 pub fn schema(input: Span) -> Result<Schema, nom::Err<Error<Span>>> {
-    all_consuming((space_comment0, top_level, space_comment0))
+    // a byte order mark is not part of the schema
+    let byte_order_mark = opt(char('\u{FEFF}'));
+    all_consuming((byte_order_mark, space_comment0, top_level, space_comment0))
         .parse(input)
-        .map(|(_, (_, r, _))| r)
+        .map(|(_, (_, _, r, _))| r)
 }
 
 // topLevel	  ::=  	decl* (pattern | grammarContent*)
-- 
2.43.0


From 2390f5fd6d12c8b1f9f9faae31c564751a96f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 62/80] fix: don't panic when validation goes on after an error
 at the start of an element

---
 relaxng-validator/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 1cc33a1..94876da 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -771,11 +771,13 @@ impl<'a> Validator<'a> {
                 local,
                 span,
             } => {
+                let text_before = self.flush_text();
+                // needed even if there's an error, as validation may go on after it
+                self.stack.push(prefix, local, span);
+                text_before?;
                 if is_missing_prefix(prefix) {
                     return Err(ValidatorError::NotAllowed(evt));
                 }
-                self.flush_text()?;
-                self.stack.push(prefix, local, span);
                 // does not change current_step state
                 return Ok(());
             }
-- 
2.43.0


From 9a73a77544e94e6521c1800eddfaf401d94502aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 63/80] fix: report a parent reference in an included grammar
 at its place in that file

---
 relaxng-model/src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 21665ef..b6adcb2 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -688,17 +688,19 @@ impl<'a> Context<'a> {
         }
     }
 
-    fn acquire_parent_ref(&self, id: &types::Identifier) -> Result<model::PatRef, RelaxError> {
+    /// The given span is that of the reference, which may be in another file than this context
+    fn acquire_parent_ref(
+        &self,
+        id: &types::Identifier,
+        span: codemap::Span,
+    ) -> Result<model::PatRef, RelaxError> {
         match self {
-            Context::Root { .. } => {
-                let span = self.file().span.subspan(id.0.start as u64, id.0.end as u64);
-                Err(RelaxError::NoParentAvailable(span))
-            }
+            Context::Root { .. } => Err(RelaxError::NoParentAvailable(span)),
             Context::Include { parent, .. }
             | Context::IncludeOverrides { parent }
             | Context::Define { parent, .. }
             | Context::Element { parent }
-            | Context::Attribute { parent, .. } => parent.acquire_parent_ref(id),
+            | Context::Attribute { parent, .. } => parent.acquire_parent_ref(id, span),
             // a recursive reference is found later, by check_recursion()
             Context::Grammar { parent, .. } => parent.acquire_ref_impl(id),
         }
@@ -1812,7 +1814,7 @@ impl<FS: Files> Compiler<FS> {
         Ok(Pattern::Ref(
             span,
             reference.1.clone(),
-            ctx.acquire_parent_ref(reference)?,
+            ctx.acquire_parent_ref(reference, span)?,
         ))
     }
     fn compile_external(
-- 
2.43.0


From 200ac0c177621c15cbfe0c7cd0cbbda3a2bd4d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:09 +0000
Subject: [PATCH 64/80] fix: angle brackets in the character classes of
 patterns

---
 relaxng-model/src/datatype/xsd.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 8a5b557..2464524 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -756,8 +756,9 @@ fn translate_class(chars: &[char], start: usize) -> Result<(String, usize), rege
                 }
             }
             c => {
-                // some characters are operators of the other syntax
-                if c.is_ascii_punctuation() {
+                // some characters are operators of the other syntax (there, `\<` and `\>` are word
+                // boundaries)
+                if c.is_ascii_punctuation() && !matches!(c, '<' | '>') {
                     class.push('\\');
                 }
                 class.push(c);
@@ -778,6 +779,7 @@ fn translate_escape(escaped: Option<&char>, out: &mut String) -> Result<(), rege
         Some('S') => out.push_str(r"[^ \t\n\r]"),
         Some('w') => out.push_str(r"[^\p{P}\p{Z}\p{C}]"),
         Some('W') => out.push_str(r"[\p{P}\p{Z}\p{C}]"),
+        Some(&c @ ('<' | '>')) => out.push(c),
         Some(&c) if "nrtdDpP".contains(c) || c.is_ascii_punctuation() => {
             out.push('\\');
             out.push(c);
-- 
2.43.0


From dc06b9bf0c9bcdb1b3ef21a89117a3993412fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 65/80] fix: do not search every open element for the
 declaration of a namespace

---
 relaxng-validator/src/lib.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 94876da..441ead9 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1769,15 +1769,17 @@ const XMLNS_NAMESPACE: &str = "http://www.w3.org/2000/xmlns/";
 #[derive(Default)]
 struct ElementStack<'a> {
     elements: Vec<ElementState<'a>>,
+    /// Indices of those elements which have namespace declarations
+    declaring: Vec<usize>,
     seen_root: bool,
 }
 
 impl<'a> ElementStack<'a> {
     fn lookup_namespace_uri(&self, prefix: &str) -> Option<Uri<'a, '_>> {
-        self.elements
+        self.declaring
             .iter()
             .rev()
-            .find_map(|elem| elem.lookup_namespace_uri(prefix))
+            .find_map(|&i| self.elements[i].lookup_namespace_uri(prefix))
     }
 
     fn try_lookup_namespace_uri(
@@ -1821,6 +1823,9 @@ impl<'a> ElementStack<'a> {
     }
     fn pop(&mut self) {
         self.elements.pop();
+        if self.declaring.last() == Some(&self.elements.len()) {
+            self.declaring.pop();
+        }
     }
     /// The root element has been seen, and all elements have been closed
     fn is_complete(&self) -> bool {
@@ -1863,13 +1868,13 @@ impl<'a> ElementStack<'a> {
             return false;
         }
         if prefix.as_str() == "xmlns" {
-            self.elements.last_mut().unwrap().namespaces.push(Ns {
+            self.declare(Ns {
                 prefix: local,
                 namespace_uri: value,
                 data,
             })
         } else if prefix.as_str() == "" && local.as_str() == "xmlns" {
-            self.elements.last_mut().unwrap().namespaces.push(Ns {
+            self.declare(Ns {
                 prefix,
                 namespace_uri: value,
                 data,
@@ -1889,6 +1894,14 @@ impl<'a> ElementStack<'a> {
         }
         true
     }
+    fn declare(&mut self, ns: Ns<'a>) {
+        let elem = self.elements.last_mut().unwrap();
+        elem.namespaces.push(ns);
+        let i = self.elements.len() - 1;
+        if self.declaring.last() != Some(&i) {
+            self.declaring.push(i);
+        }
+    }
     fn current_element(&self) -> Result<QualifiedName<'a, '_>, ValidatorError<'a>> {
         let curr = self.elements.last().unwrap();
         let namespace_uri = self.try_lookup_namespace_uri(curr.prefix)?;
-- 
2.43.0


From 1b356232403da98464999821c77eff09d327f94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:55 +0000
Subject: [PATCH 66/80] fix: attributes of other namespaces are not those of
 RELAX NG

A `name` or `ns` attribute in a foreign namespace was taken for the one without a
namespace, since attribute_node() finds attributes by their local name.
---
 relaxng-syntax/src/xml.rs | 51 +++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 491f1e7..3824cab 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -92,7 +92,7 @@ fn pattern(node: Node) -> Result<Pattern> {
 }
 
 fn check_standard_attrs(node: Node) -> Result<()> {
-    if let Some(dt_lib) = node.attribute_node("datatypeLibrary") {
+    if let Some(dt_lib) = att(node, "datatypeLibrary") {
         let val = dt_lib.value();
         if val.is_empty() {
             Ok(())
@@ -145,7 +145,7 @@ fn next_rng_sibling<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, '
 }
 fn element(node: Node) -> Result<ElementPattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
-    let (name_class, pattern) = if let Some(name) = node.attribute_node("name") {
+    let (name_class, pattern) = if let Some(name) = att(node, "name") {
         let name_class = NameClass::Name(qname_att(
             node,
             &name,
@@ -296,7 +296,7 @@ fn ns_literal(ns: &Attribute) -> Literal {
 fn get_ns_att<'a, 'input: 'a>(start: Node<'a, 'input>) -> Option<Attribute<'a, 'input>> {
     let mut this = Some(start);
     while let Some(node) = this {
-        if let Some(ns) = node.attribute_node("ns") {
+        if let Some(ns) = att(node, "ns") {
             return Some(ns);
         }
         this = node.parent_element();
@@ -313,7 +313,7 @@ fn get_datatype_lib(node: Node) -> Option<Literal> {
 fn get_dt_lib_att<'a, 'input: 'a>(start: Node<'a, 'input>) -> Option<Attribute<'a, 'input>> {
     let mut this = Some(start);
     while let Some(node) = this {
-        if let Some(ns) = node.attribute_node("datatypeLibrary") {
+        if let Some(ns) = att(node, "datatypeLibrary") {
             return Some(ns);
         }
         this = node.parent_element();
@@ -344,11 +344,9 @@ fn single_pattern_or_group(mut node: Node) -> Result<Pattern> {
 
 fn attribute(node: Node) -> Result<AttributePattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
-    let (name_class, rest) = if let Some(name) = node.attribute_node("name") {
+    let (name_class, rest) = if let Some(name) = att(node, "name") {
         // unlike elements, attributes do not inherit the 'ns' of the elements around them
-        let ns = node
-            .attribute_node("ns")
-            .map_or(Literal::new(0..0, String::new()), |ns| ns_literal(&ns));
+        let ns = att(node, "ns").map_or(Literal::new(0..0, String::new()), |ns| ns_literal(&ns));
         if name.value() == "xmlns" && ns.as_string_value().is_empty() {
             return Err(Error::Unexpected(
                 name.range_value(),
@@ -455,7 +453,7 @@ fn mixed(node: Node) -> Result<MixedPattern> {
 
 fn ref_patt(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
-    if let Some(name) = node.attribute_node("name") {
+    if let Some(name) = att(node, "name") {
         definition_name(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
@@ -464,7 +462,7 @@ fn ref_patt(node: Node) -> Result<Identifier> {
 
 fn parent_ref(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
-    if let Some(name) = node.attribute_node("name") {
+    if let Some(name) = att(node, "name") {
         definition_name(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
@@ -488,8 +486,7 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
     // TODO: have a better representation for 'unspecified' (default) datatype namespace that
     // doesn't need a bogus 0..0 span,
     let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
-    let type_name = node
-        .attribute_node("type")
+    let type_name = att(node, "type")
         .map(|attr| ncname(attr.range_value(), attr.value()))
         .transpose()?;
     let val = text_content(node);
@@ -522,9 +519,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
     // TODO: have a better representation for 'unspecified' (default) datatype namespace that
     // doesn't need a bogus 0..0 span,
     let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
-    let type_attr = node
-        .attribute_node("type")
-        .ok_or(Error::Expected(node.range(), "type attribute"))?;
+    let type_attr = att(node, "type").ok_or(Error::Expected(node.range(), "type attribute"))?;
     let type_name = match type_attr.value().trim() {
         "token" if datatype_ns.as_string_value().is_empty() => DatatypeName::Token,
         val => {
@@ -597,9 +592,7 @@ fn params<'a, 'input: 'a>(
 }
 
 fn param(node: Node) -> Result<Param> {
-    let name = node
-        .attribute_node("name")
-        .ok_or(Error::Expected(node.range(), "name attribute"))?;
+    let name = att(node, "name").ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = attr_ncname(&name)?;
 
     no_element_children(node)?;
@@ -620,9 +613,7 @@ fn not_allowed(node: Node) -> Result<Pattern> {
 }
 
 fn external_ref(node: Node) -> Result<ExternalPattern> {
-    let href = node
-        .attribute_node("href")
-        .ok_or(Error::Expected(node.range(), "href attribute"))?;
+    let href = att(node, "href").ok_or(Error::Expected(node.range(), "href attribute"))?;
 
     // TODO: ExternalPattern's requirement for a 'literal' here is inconvenient, and its API should
     //       be altered to make using it here simpler
@@ -674,7 +665,7 @@ fn grammar_content(node: Node) -> Result<GrammarContent> {
 }
 
 fn start(node: Node) -> Result<Define> {
-    let combine = if let Some(combine) = node.attribute_node("combine") {
+    let combine = if let Some(combine) = att(node, "combine") {
         match combine.value().trim() {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
@@ -710,7 +701,7 @@ fn start(node: Node) -> Result<Define> {
 }
 
 fn define(node: Node) -> Result<Define> {
-    let combine = if let Some(combine) = node.attribute_node("combine") {
+    let combine = if let Some(combine) = att(node, "combine") {
         match combine.value().trim() {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
@@ -725,9 +716,7 @@ fn define(node: Node) -> Result<Define> {
         AssignMethod::Assign
     };
 
-    let name = node
-        .attribute_node("name")
-        .ok_or(Error::Expected(node.range(), "name attribute"))?;
+    let name = att(node, "name").ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = definition_name(&name)?;
 
     let patt = single_pattern_or_group(
@@ -798,9 +787,7 @@ fn resolve(result: &mut Option<PathBuf>, new: &str) {
 }
 
 fn include(node: Node) -> Result<Include> {
-    let href = node
-        .attribute_node("href")
-        .ok_or(Error::Expected(node.range(), "href attribute"))?;
+    let href = att(node, "href").ok_or(Error::Expected(node.range(), "href attribute"))?;
 
     let seg = LiteralSegment {
         body: rebase_path(node, href.value())?,
@@ -998,6 +985,12 @@ fn is_rng_att(a: &Attribute) -> bool {
     a.namespace().is_none() || is_rng(a.namespace())
 }
 
+/// The attribute of that name in no namespace; `attribute_node()` would also find that of any namespace
+fn att<'a, 'input: 'a>(node: Node<'a, 'input>, name: &str) -> Option<Attribute<'a, 'input>> {
+    node.attributes()
+        .find(|a| a.namespace().is_none() && a.name() == name)
+}
+
 /// Any element in the relaxng namespace may have these
 fn is_common_att(a: &Attribute) -> bool {
     a.namespace().is_none() && (a.name() == "ns" || a.name() == "datatypeLibrary")
-- 
2.43.0


From cf0546b0df886a55b06b6534eb91361d1ea46011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 67/80] fix: names in the XML syntax only have the white space
 of XML around them

Also there is no white space around the colon of a qualified name.
---
 relaxng-syntax/src/xml.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 3824cab..0180fa5 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -91,6 +91,11 @@ fn pattern(node: Node) -> Result<Pattern> {
     }
 }
 
+/// Without the white space of XML around, which is less than what Unicode has
+fn trim(val: &str) -> &str {
+    val.trim_matches([' ', '\t', '\r', '\n'])
+}
+
 fn check_standard_attrs(node: Node) -> Result<()> {
     if let Some(dt_lib) = att(node, "datatypeLibrary") {
         let val = dt_lib.value();
@@ -487,7 +492,7 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
     // doesn't need a bogus 0..0 span,
     let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
     let type_name = att(node, "type")
-        .map(|attr| ncname(attr.range_value(), attr.value()))
+        .map(|attr| ncname(attr.range_value(), trim(attr.value())))
         .transpose()?;
     let val = text_content(node);
     Ok(DatatypeValuePattern(
@@ -520,7 +525,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
     // doesn't need a bogus 0..0 span,
     let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
     let type_attr = att(node, "type").ok_or(Error::Expected(node.range(), "type attribute"))?;
-    let type_name = match type_attr.value().trim() {
+    let type_name = match trim(type_attr.value()) {
         "token" if datatype_ns.as_string_value().is_empty() => DatatypeName::Token,
         val => {
             let name = ncname(type_attr.range_value(), val)?;
@@ -666,7 +671,7 @@ fn grammar_content(node: Node) -> Result<GrammarContent> {
 
 fn start(node: Node) -> Result<Define> {
     let combine = if let Some(combine) = att(node, "combine") {
-        match combine.value().trim() {
+        match trim(combine.value()) {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
             _ => {
@@ -702,7 +707,7 @@ fn start(node: Node) -> Result<Define> {
 
 fn define(node: Node) -> Result<Define> {
     let combine = if let Some(combine) = att(node, "combine") {
-        match combine.value().trim() {
+        match trim(combine.value()) {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
             _ => {
@@ -751,7 +756,7 @@ fn attr_ncname(attr: &Attribute) -> Result<Identifier> {
     if attr.value().contains(':') {
         Err(Error::Unexpected(attr.range_value(), "Colon in NCName"))
     } else {
-        ident(attr.range_value(), attr.value().trim())
+        ident(attr.range_value(), trim(attr.value()))
     }
 }
 
@@ -841,12 +846,12 @@ fn div_include_content(node: Node) -> Result<IncludeContent> {
 }
 
 fn qname_att(node: Node, name: &Attribute, ns: Literal) -> Result<Name> {
-    let val = name.value();
+    let val = trim(name.value());
     if let Some(pos) = val.find(':') {
         // because of references, the value may be longer or shorter than its notation
         let prefix = &val[0..pos];
         let prefix_span = name.range_value();
-        let namespace = lookup_namespace_def(node, Some(prefix.trim()))
+        let namespace = lookup_namespace_def(node, Some(prefix))
             .ok_or_else(|| Error::Unexpected(prefix_span.clone(), "Unknown namespace prefix"))?;
         let localname = ncname(name.range_value(), &val[pos + 1..])?;
         let ns = Literal::new(prefix_span, namespace.to_string());
@@ -867,6 +872,7 @@ fn qname_el(name: Node) -> Result<Name> {
     no_element_children(name)?;
     let text = text_content(name);
     let (val, range) = (text.as_string_value(), text.0);
+    let val = trim(&val);
     if let Some(pos) = val.find(':') {
         let prefix = ncname(range.clone(), &val[0..pos])?;
         let localname = ncname(range, &val[pos + 1..])?;
@@ -877,7 +883,7 @@ fn qname_el(name: Node) -> Result<Name> {
             localname,
         }))
     } else {
-        let localname = ncname(range, &val)?;
+        let localname = ncname(range, val)?;
         Ok(Name::NamespacedName(NamespacedName {
             namespace_uri: get_ns(name).unwrap_or(INHERITED_NS),
             localname,
@@ -886,7 +892,6 @@ fn qname_el(name: Node) -> Result<Name> {
 }
 
 fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
-    let val = val.trim();
     if val.is_empty() {
         return Err(Error::Expected(range, "Expected identifier"));
     }
@@ -916,7 +921,6 @@ fn lookup_namespace_def<'a, 'input: 'a>(
 }
 
 fn ident(range: Range<usize>, val: &str) -> Result<Identifier> {
-    let val = val.trim();
     if val.is_empty() {
         return Err(Error::Expected(range, "Expected identifier"));
     }
-- 
2.43.0


From 99469a7d2bb75bb8623550b98b1e8f22bf53b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:03 +0000
Subject: [PATCH 68/80] fix: reject text and attributes which the XML syntax
 doesn't allow

---
 relaxng-syntax/src/xml.rs | 56 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 0180fa5..2098b34 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -41,6 +41,7 @@ fn pattern_or_grammar(root: Node) -> Result<PatternOrGrammar> {
     match root.tag_name().namespace() {
         Some(NS) => {
             if root.tag_name().name() == "grammar" {
+                check_element(root, &[])?;
                 Ok(PatternOrGrammar::Grammar(grammar(root)?))
             } else {
                 Ok(PatternOrGrammar::Pattern(pattern(root)?))
@@ -63,7 +64,13 @@ const INHERITED_NS: Literal = Literal(0..0, vec![]);
 
 fn pattern(node: Node) -> Result<Pattern> {
     if node.is_element() && node.tag_name().namespace() == Some(NS) {
-        check_standard_attrs(node)?;
+        let attrs: &[&str] = match node.tag_name().name() {
+            "element" | "attribute" | "ref" | "parentRef" => &["name"],
+            "value" | "data" => &["type"],
+            "externalRef" => &["href"],
+            _ => &[],
+        };
+        check_element(node, attrs)?;
         match node.tag_name().name() {
             "element" => element(node).map(Pattern::Element),
             "attribute" => attribute(node).map(Pattern::Attribute),
@@ -91,6 +98,27 @@ fn pattern(node: Node) -> Result<Pattern> {
     }
 }
 
+/// Checks that an element has no attributes but the given ones and those which any element may have,
+/// and no text if that has no meaning
+fn check_element(node: Node, attrs: &[&str]) -> Result<()> {
+    check_standard_attrs(node)?;
+    no_attrs_except(node, attrs)?;
+    if !["name", "value", "param"].contains(&node.tag_name().name()) {
+        no_text(node)?;
+    }
+    Ok(())
+}
+
+fn no_text(node: Node) -> Result<()> {
+    if let Some(text) = node
+        .children()
+        .find(|n| n.is_text() && n.text().is_some_and(|text| !trim(text).is_empty()))
+    {
+        return Err(Error::Unexpected(text.range(), "Unexpected text"));
+    }
+    Ok(())
+}
+
 /// Without the white space of XML around, which is less than what Unicode has
 fn trim(val: &str) -> &str {
     val.trim_matches([' ', '\t', '\r', '\n'])
@@ -127,7 +155,6 @@ fn check_standard_attrs(node: Node) -> Result<()> {
 
 fn first_rng_child<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, 'input>> {
     let mut child = node.first_element_child();
-    // TODO: error on non-whitespace text nodes?
     while let Some(node) = child {
         if is_rng_node(node) {
             return Some(node);
@@ -139,7 +166,6 @@ fn first_rng_child<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, 'i
 
 fn next_rng_sibling<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, 'input>> {
     let mut child = node.next_sibling_element();
-    // TODO: error on non-whitespace text nodes?
     while let Some(node) = child {
         if is_rng_node(node) {
             return Some(node);
@@ -188,7 +214,7 @@ fn tag_span(node: Node) -> Span {
 fn no_attrs_except(node: Node, names: &[&str]) -> std::result::Result<(), Error> {
     if let Some(a) = node
         .attributes()
-        .find(|a| is_rng_att(a) && !is_common_att(a) && !names.contains(&a.name()))
+        .find(|a| is_rng_att(a) && !is_common_att(a) && !is_att(a, names))
     {
         return Err(Error::Unexpected(a.range(), "Unexpected attribute"));
     }
@@ -205,6 +231,7 @@ fn name_class(node: Node, in_except: InExcept) -> Result<NameClass> {
     if node.is_element()
         && node.tag_name().namespace() == Some("http://relaxng.org/ns/structure/1.0")
     {
+        check_element(node, &[])?;
         match node.tag_name().name() {
             "name" => qname_el(node).map(NameClass::Name),
             "anyName" => {
@@ -251,6 +278,7 @@ fn any_name(node: Node) -> Result<AnyName> {
 }
 
 fn except_nameclass(node: Node) -> Result<NameClass> {
+    check_element(node, &[])?;
     let mut child =
         first_rng_child(node).ok_or(Error::Expected(node.range(), "Expected name-class child"))?;
     let mut pat = name_class(child, InExcept::InsideExcept)?;
@@ -551,6 +579,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
         if !is_el(node, "except") {
             return Err(Error::Unexpected(node.range(), "Unexpected element"));
         }
+        check_element(node, &[])?;
         let except_patt =
             first_rng_child(node).ok_or(Error::Expected(node.range(), "child pattern element"))?;
         (
@@ -597,6 +626,7 @@ fn params<'a, 'input: 'a>(
 }
 
 fn param(node: Node) -> Result<Param> {
+    check_element(node, &["name"])?;
     let name = att(node, "name").ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = attr_ncname(&name)?;
 
@@ -651,6 +681,7 @@ fn grammar_content(node: Node) -> Result<GrammarContent> {
     if node.is_element()
         && node.tag_name().namespace() == Some("http://relaxng.org/ns/structure/1.0")
     {
+        check_content(node)?;
         match node.tag_name().name() {
             "start" => start(node).map(GrammarContent::Define),
             "define" => define(node).map(GrammarContent::Define),
@@ -669,6 +700,18 @@ fn grammar_content(node: Node) -> Result<GrammarContent> {
     }
 }
 
+fn check_content(node: Node) -> Result<()> {
+    check_element(
+        node,
+        match node.tag_name().name() {
+            "start" => &["combine"],
+            "define" => &["name", "combine"],
+            "include" => &["href"],
+            _ => &[],
+        },
+    )
+}
+
 fn start(node: Node) -> Result<Define> {
     let combine = if let Some(combine) = att(node, "combine") {
         match trim(combine.value()) {
@@ -817,6 +860,7 @@ fn include_content(node: Node) -> Result<IncludeContent> {
     if node.is_element()
         && node.tag_name().namespace() == Some("http://relaxng.org/ns/structure/1.0")
     {
+        check_content(node)?;
         match node.tag_name().name() {
             "start" => start(node).map(IncludeContent::Define),
             "define" => define(node).map(IncludeContent::Define),
@@ -995,6 +1039,10 @@ fn att<'a, 'input: 'a>(node: Node<'a, 'input>, name: &str) -> Option<Attribute<'
         .find(|a| a.namespace().is_none() && a.name() == name)
 }
 
+fn is_att(a: &Attribute, names: &[&str]) -> bool {
+    a.namespace().is_none() && names.contains(&a.name())
+}
+
 /// Any element in the relaxng namespace may have these
 fn is_common_att(a: &Attribute) -> bool {
     a.namespace().is_none() && (a.name() == "ns" || a.name() == "datatypeLibrary")
-- 
2.43.0


From f13d41a3d23acb25feed2c83e3eb7bb6f333ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:06 +0000
Subject: [PATCH 69/80] fix: reject RELAX NG elements within externalRef

---
 relaxng-syntax/src/xml.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 2098b34..6b33f3b 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -648,6 +648,7 @@ fn not_allowed(node: Node) -> Result<Pattern> {
 }
 
 fn external_ref(node: Node) -> Result<ExternalPattern> {
+    no_rng_element_children(node)?;
     let href = att(node, "href").ok_or(Error::Expected(node.range(), "href attribute"))?;
 
     // TODO: ExternalPattern's requirement for a 'literal' here is inconvenient, and its API should
-- 
2.43.0


From 87ed62ef578b275ad93af328d9ff76176cf9af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:10 +0000
Subject: [PATCH 70/80] fix: reject references without a name in the value of
 an unused entity

---
 relaxng-validator/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 441ead9..cc922db 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -5,7 +5,7 @@ use std::cell::RefCell;
 use std::collections::{BTreeSet, HashMap, HashSet};
 use std::io;
 use std::rc::Rc;
-use xmlparser::{ElementEnd, EntityDefinition, StrSpan, Token, Tokenizer};
+use xmlparser::{ElementEnd, EntityDefinition, StrSpan, Token, Tokenizer, XmlCharExt};
 
 #[derive(Debug)]
 pub enum ValidatorError<'a> {
@@ -858,7 +858,13 @@ impl<'a> Validator<'a> {
                     EntityDefinition::EntityValue(val) => {
                         // references must be well-formed, even if the entity is never used
                         for reference in parse_entities(val.start(), val.as_str()) {
-                            reference?;
+                            if let Txt::Entity(pos, name) = reference?
+                                && !is_xml_name(name)
+                            {
+                                return Err(ValidatorError::InvalidOrUnclosedEntity {
+                                    span: pos - 1..pos + name.len(),
+                                });
+                            }
                         }
                         if val.contains('%') || !val.chars().all(is_xml_char) {
                             return Err(ValidatorError::NotAllowed(evt));
@@ -1746,6 +1752,11 @@ fn is_xml_char(c: char) -> bool {
     matches!(c, '\x09' | '\x0a' | '\x0d' | '\x20'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
 }
 
+fn is_xml_name(name: &str) -> bool {
+    name.chars().next().is_some_and(|c| c.is_xml_name_start())
+        && name.chars().all(|c| c.is_xml_name())
+}
+
 /// Whether there is nothing before the colon of a name.  (For a name without a colon, the prefix
 /// given by the tokenizer has no position.)
 fn is_missing_prefix(prefix: StrSpan) -> bool {
-- 
2.43.0


From 0fde2a38aa043d127983da58c121063146e534f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:39 +0000
Subject: [PATCH 71/80] fix: `inherit` is not just the start of a longer name

---
 relaxng-syntax/src/compact.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index dcba228..9d22dc6 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -3,7 +3,7 @@ use nom::character::complete::satisfy;
 use nom::combinator::cut;
 use nom::error::{Error, ErrorKind, ParseError};
 use nom::multi::separated_list1;
-use nom::sequence::preceded;
+use nom::sequence::{preceded, terminated};
 use nom::{
     AsChar, IResult,
     branch::alt,
@@ -152,7 +152,7 @@ fn identifier_or_keyword(input: Span) -> IResult<Span, IdentifierOrKeyword> {
 //                             | "inherit"
 fn namespace_uri_literal(input: Span) -> IResult<Span, NamespaceUriLiteral> {
     alt((
-        map(tag("inherit"), |_| NamespaceUriLiteral::Inherit),
+        map(word("inherit"), |_| NamespaceUriLiteral::Inherit),
         map(literal, NamespaceUriLiteral::Uri),
     ))
     .parse(input)
@@ -294,6 +294,13 @@ fn nc_name_char(input: Span) -> IResult<Span, char> {
     .parse(input)
 }
 
+/// A word which isn't just the start of a longer one
+fn word<'a>(
+    word: &'static str,
+) -> impl Parser<Span<'a>, Output = Span<'a>, Error = Error<Span<'a>>> {
+    terminated(tag(word), not(nc_name_char))
+}
+
 fn keyword(input: Span) -> IResult<Span, Keyword> {
     let parse = (
         alt((
-- 
2.43.0


From f1793c198b0bf2e1a6cd36c8d0b1a119bc25f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:43 +0000
Subject: [PATCH 72/80] fix: tokens which touch don't need white space between
 them in compact syntax

---
 relaxng-syntax/src/compact.rs | 46 +++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 9d22dc6..d77bc54 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -38,8 +38,8 @@ pub fn schema(input: Span) -> Result<Schema, nom::Err<Error<Span>>> {
 // topLevel	  ::=  	decl* (pattern | grammarContent*)
 fn top_level(input: Span) -> IResult<Span, Schema> {
     let parse = (
-        separated_list0(space_comment1, decl),
-        space_comment0, // TODO: should be space_comment1, and only required if there are decls
+        separated_list0(space_comment0, decl),
+        space_comment0,
         alt((
             map(peek((space_comment0, eof)), |_| {
                 PatternOrGrammar::Grammar(GrammarPattern {
@@ -49,7 +49,7 @@ fn top_level(input: Span) -> IResult<Span, Schema> {
             }),
             // TODO: proper span for GrammarPattern
             map(
-                separated_list1(space_comment1, grammar_content),
+                separated_list1(space_comment0, grammar_content),
                 |content| {
                     PatternOrGrammar::Grammar(GrammarPattern {
                         span: 0..0,
@@ -81,8 +81,8 @@ fn decl(input: Span) -> IResult<Span, Decl> {
 }
 fn decl_namespace(input: Span) -> IResult<Span, NamespaceDeclaration> {
     let (input, (_keyword, _, prefix, _, _, _, uri)) = (
-        tag("namespace"),
-        space_comment1,
+        word("namespace"),
+        space_comment0,
         identifier_or_keyword,
         space_comment0,
         tag("="),
@@ -102,8 +102,8 @@ fn decl_default_namespace(input: Span) -> IResult<Span, DefaultNamespaceDeclarat
     let (input, (_keyword, _, _, prefix, _, _, _, uri)) = (
         tag("default"),
         space_comment1,
-        tag("namespace"),
-        opt(preceded(space_comment1, identifier_or_keyword)),
+        word("namespace"),
+        opt(preceded(space_comment0, identifier_or_keyword)),
         space_comment0,
         tag("="),
         space_comment0,
@@ -120,8 +120,8 @@ fn decl_default_namespace(input: Span) -> IResult<Span, DefaultNamespaceDeclarat
 }
 fn decl_datatypes(input: Span) -> IResult<Span, DatatypesDeclaration> {
     let (input, (_keyword, _, prefix, _, _, _, uri)) = (
-        tag("datatypes"),
-        space_comment1,
+        word("datatypes"),
+        space_comment0,
         identifier_or_keyword,
         space_comment0,
         tag("="),
@@ -430,7 +430,7 @@ fn primary(input: Span) -> IResult<Span, Pattern> {
         map(datatype_param_pattern, Pattern::DatatypeName),
         map(definition_name, Pattern::Identifier),
         map(
-            (tag("parent"), space_comment1, definition_name),
+            (word("parent"), space_comment0, definition_name),
             |(_, _, p)| Pattern::Parent(p),
         ),
         map(tag("empty"), |_| Pattern::Empty),
@@ -534,9 +534,9 @@ fn mixed_pattern(input: Span) -> IResult<Span, MixedPattern> {
 fn external_pattern(input: Span) -> IResult<Span, ExternalPattern> {
     let parse = (
         tag("external"),
-        space_comment1,
+        space_comment0,
         any_uri_literal,
-        opt(map((space_comment1, inherit), |(_, inherit)| inherit)),
+        opt(map((space_comment0, inherit), |(_, inherit)| inherit)),
     );
 
     let mut parser = map(parse, |(_, _, uri, inherit)| ExternalPattern(uri, inherit));
@@ -551,7 +551,7 @@ fn grammar_pattern(input: Span) -> IResult<Span, GrammarPattern> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, grammar_content),
+        separated_list0(space_comment0, grammar_content),
         space_comment0,
         cut(tag("}")),
         position,
@@ -590,7 +590,7 @@ fn datatype_param_pattern(input: Span) -> IResult<Span, DatatypeNamePattern> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, param),
+        separated_list0(space_comment0, param),
         space_comment0,
         cut(tag("}")),
     );
@@ -846,7 +846,7 @@ fn div_grammar_content(input: Span) -> IResult<Span, Vec<GrammarContent>> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, grammar_content),
+        separated_list0(space_comment0, grammar_content),
         space_comment0,
         cut(tag("}")),
     );
@@ -860,15 +860,15 @@ fn div_grammar_content(input: Span) -> IResult<Span, Vec<GrammarContent>> {
 fn include(input: Span) -> IResult<Span, Include> {
     let parse = (
         tag("include"),
-        space_comment1,
+        space_comment0,
         any_uri_literal,
-        opt(map((space_comment1, inherit), |(_, v)| v)),
+        opt(map((space_comment0, inherit), |(_, v)| v)),
         opt(map(
             (
                 space_comment0,
                 tag("{"),
                 space_comment0,
-                separated_list0(space_comment1, include_content),
+                separated_list0(space_comment0, include_content),
                 space_comment0,
                 cut(tag("}")),
             ),
@@ -924,7 +924,7 @@ fn div_include_content(input: Span) -> IResult<Span, Vec<IncludeContent>> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, include_content),
+        separated_list0(space_comment0, include_content),
         space_comment0,
         cut(tag("}")),
     );
@@ -952,9 +952,9 @@ fn initial_annotation(input: Span) -> IResult<Span, InitialAnnotation> {
     let parse = (
         tag("["),
         space_comment0,
-        separated_list0(space_comment1, annotation_attribute),
+        separated_list0(space_comment0, annotation_attribute),
         space_comment0,
-        separated_list0(space_comment1, annotation_element),
+        separated_list0(space_comment0, annotation_element),
         space_comment0,
         tag("]"),
     );
@@ -1004,9 +1004,9 @@ fn annotation_element(input: Span) -> IResult<Span, AnnotationElement> {
         space_comment0,
         tag("["),
         space_comment0,
-        separated_list0(space_comment1, annotation_attribute),
+        separated_list0(space_comment0, annotation_attribute),
         space_comment0,
-        separated_list0(space_comment1, annotation_element_or_literal),
+        separated_list0(space_comment0, annotation_element_or_literal),
         space_comment0,
         tag("]"),
     );
-- 
2.43.0


From 6b4bebba36e87dbaa860b17ebeebed67b91365d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:47 +0000
Subject: [PATCH 73/80] fix: a carriage return is also a newline, which ends no
 single-line literal

---
 relaxng-syntax/src/compact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index d77bc54..f7385b0 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -178,8 +178,8 @@ fn literal_segment(input: Span) -> IResult<Span, LiteralSegment> {
     let (rest, body) = alt((
         delimited(tag("\"\"\""), take_until("\"\"\""), tag("\"\"\"")),
         delimited(tag("'''"), take_until("'''"), tag("'''")),
-        delimited(tag("\""), recognize(opt(is_not("\"\n"))), tag("\"")),
-        delimited(tag("'"), recognize(opt(is_not("'\n"))), tag("'")),
+        delimited(tag("\""), recognize(opt(is_not("\"\r\n"))), tag("\"")),
+        delimited(tag("'"), recognize(opt(is_not("'\r\n"))), tag("'")),
     ))
     .parse(input)?;
 
-- 
2.43.0


From e5fb7ea86e93bbf2490bed23b91b39f7d4c52d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:51 +0000
Subject: [PATCH 74/80] fix: newlines within literals are line feeds, however
 the file has them

---
 relaxng-syntax/src/compact.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index f7385b0..7a34246 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -193,7 +193,9 @@ fn literal_segment(input: Span) -> IResult<Span, LiteralSegment> {
 // returns None if there's one that doesn't stand for a character
 fn unescape(text: &str) -> Option<String> {
     let mut result = String::new();
-    let mut rest = text;
+    // any newline stands for a line feed, unless it's written as an escape sequence
+    let text = text.replace("\r\n", "\n").replace('\r', "\n");
+    let mut rest = text.as_str();
     while let Some(pos) = rest.find("\\x") {
         let escape = rest[pos + 1..].trim_start_matches('x');
         let digits = escape.strip_prefix('{').and_then(|e| e.split_once('}'));
-- 
2.43.0


From 2390f19699aa6f7022f0dab5ed1e93edf96ba64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 75/80] fix: escape sequences have no sign

---
 relaxng-syntax/src/compact.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 7a34246..2aebb74 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -202,6 +202,10 @@ fn unescape(text: &str) -> Option<String> {
         result.push_str(&rest[..pos]);
         match digits {
             Some((digits, after)) => {
+                // other than for from_str_radix(), a sign is not a digit
+                if digits.starts_with('+') {
+                    return None;
+                }
                 let code = u32::from_str_radix(digits, 16).ok()?;
                 result.push(char::from_u32(code)?);
                 rest = after;
-- 
2.43.0


From fce386fdafc45189bd5dc1a2edfe7f18c84655a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:59 +0000
Subject: [PATCH 76/80] fix: reject characters in literals which XML doesn't
 have

---
 relaxng-syntax/src/compact.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 2aebb74..3c8de93 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -190,7 +190,7 @@ fn literal_segment(input: Span) -> IResult<Span, LiteralSegment> {
 }
 
 // escapeSequence  ::=  "\" "x"+ "{" hexadecimal digits "}"
-// returns None if there's one that doesn't stand for a character
+// returns None if there's one that doesn't stand for a character, or a character that XML doesn't have
 fn unescape(text: &str) -> Option<String> {
     let mut result = String::new();
     // any newline stands for a line feed, unless it's written as an escape sequence
@@ -217,7 +217,11 @@ fn unescape(text: &str) -> Option<String> {
         }
     }
     result.push_str(rest);
-    Some(result)
+    Some(result).filter(|text| text.chars().all(is_xml_char))
+}
+
+fn is_xml_char(c: char) -> bool {
+    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..)
 }
 
 fn span(start: LocatedSpan<&str>, end: LocatedSpan<&str>) -> Range<usize> {
-- 
2.43.0


From 50f2521cb983baa0725ff7985e2eb2ece5975b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:41 +0000
Subject: [PATCH 77/80] fix: accept white space around the numbers of
 parameters

---
 relaxng-model/src/datatype/xsd.rs | 41 ++++++++++++-------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 2464524..0846604 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -205,6 +205,11 @@ impl super::Datatype for XsdDatatypes {
     }
 }
 
+/// The value of a parameter which is a number, around which white space has no meaning
+fn number_text(param: &types::Param) -> String {
+    normalize_whitespace(&param.3.as_string_value())
+}
+
 // The libraries' parsers also allow digits to be separated by '_', exponents and signs within decimal
 // numbers, and names of infinity and NaN other than those of XML Schema.  These functions hide such
 // notations from them.
@@ -1570,9 +1575,7 @@ impl Compiler {
     }
 
     fn i16(ctx: &Context, param: &types::Param) -> Result<i16, FacetError> {
-        param
-            .3
-            .as_string_value()
+        number_text(param)
             .parse()
             .map_err(|e: std::num::ParseIntError| {
                 FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
@@ -1580,9 +1583,7 @@ impl Compiler {
     }
 
     fn i32(ctx: &Context, param: &types::Param) -> Result<i32, FacetError> {
-        param
-            .3
-            .as_string_value()
+        number_text(param)
             .parse()
             .map_err(|e: std::num::ParseIntError| {
                 FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
@@ -1590,9 +1591,7 @@ impl Compiler {
     }
 
     fn i64(ctx: &Context, param: &types::Param) -> Result<i64, FacetError> {
-        param
-            .3
-            .as_string_value()
+        number_text(param)
             .parse()
             .map_err(|e: std::num::ParseIntError| {
                 FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
@@ -1600,9 +1599,7 @@ impl Compiler {
     }
 
     fn u32(ctx: &Context, param: &types::Param) -> Result<u32, FacetError> {
-        param
-            .3
-            .as_string_value()
+        number_text(param)
             .parse()
             .map_err(|e: std::num::ParseIntError| {
                 FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
@@ -1610,9 +1607,7 @@ impl Compiler {
     }
 
     fn u64(ctx: &Context, param: &types::Param) -> Result<u64, FacetError> {
-        param
-            .3
-            .as_string_value()
+        number_text(param)
             .parse()
             .map_err(|e: std::num::ParseIntError| {
                 FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
@@ -1620,9 +1615,7 @@ impl Compiler {
     }
 
     fn u16(ctx: &Context, param: &types::Param) -> Result<u16, FacetError> {
-        param
-            .3
-            .as_string_value()
+        number_text(param)
             .parse()
             .map_err(|e: std::num::ParseIntError| {
                 FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
@@ -1630,7 +1623,7 @@ impl Compiler {
     }
 
     fn f64(ctx: &Context, param: &types::Param) -> Result<f64, FacetError> {
-        parse_double(&param.3.as_string_value())
+        parse_double(&number_text(param))
             .map_err(|e: std::num::ParseFloatError| {
                 FacetError::InvalidFloat(ctx.convert_span(&param.0), e.to_string())
             })
@@ -1647,13 +1640,13 @@ impl Compiler {
     }
 
     fn bigint(ctx: &Context, param: &types::Param) -> Result<num_bigint::BigInt, FacetError> {
-        parse_integer(&param.3.as_string_value()).map_err(|e: num_bigint::ParseBigIntError| {
+        parse_integer(&number_text(param)).map_err(|e: num_bigint::ParseBigIntError| {
             FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
         })
     }
 
     fn biguint(ctx: &Context, param: &types::Param) -> Result<num_bigint::BigUint, FacetError> {
-        parse_integer(&param.3.as_string_value()).map_err(|e: num_bigint::ParseBigIntError| {
+        parse_integer(&number_text(param)).map_err(|e: num_bigint::ParseBigIntError| {
             FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
         })
     }
@@ -1662,15 +1655,13 @@ impl Compiler {
         ctx: &Context,
         param: &types::Param,
     ) -> Result<bigdecimal::BigDecimal, FacetError> {
-        parse_decimal(&param.3.as_string_value()).map_err(|e: bigdecimal::ParseBigDecimalError| {
+        parse_decimal(&number_text(param)).map_err(|e: bigdecimal::ParseBigDecimalError| {
             FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
         })
     }
 
     fn usize(ctx: &Context, param: &types::Param) -> Result<usize, FacetError> {
-        param
-            .3
-            .as_string_value()
+        number_text(param)
             .parse()
             .map_err(|e: std::num::ParseIntError| {
                 FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
-- 
2.43.0


From e10dba6d5b184cefba5a925b8ba893ad2614ff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:20 +0000
Subject: [PATCH 78/80] fix: do not report recursion of definitions which are
 overridden

---
 relaxng-model/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index b6adcb2..1bf94e1 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -716,8 +716,8 @@ impl<'a> Context<'a> {
             Context::Include { .. } => Ok(()),
             Context::IncludeOverrides { .. } => Ok(()),
             Context::Grammar { .. } => Ok(()),
-            Context::Define { id, .. } => {
-                if id.1 == ref_id.1 {
+            Context::Define { parent, id } => {
+                if id.1 == ref_id.1 && !parent.is_overridden(&id.1) {
                     Err(RelaxError::RecursiveReference {
                         ref_id: ref_id.1.clone(),
                         ref_span: self.convert_span(&ref_id.0),
-- 
2.43.0


From b323413d2128cdb267f71cad6978e352eeea3202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:49 +0000
Subject: [PATCH 79/80] fix: normalize white space which an entity in an
 attribute value has as character references

---
 relaxng-validator/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index cc922db..cebeb1a 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -924,6 +924,11 @@ impl<'a> Validator<'a> {
                     .buffer
                     .push_str(&normalize_newlines(val).replace(is_whitespace_char, " ")),
                 Txt::Text(_pos, val) => out.buffer.push_str(&normalize_newlines(val)),
+                // what an entity stands for has its character references already replaced, so that
+                // white space is normalized as if it were written literally
+                Txt::Char(_pos, val) if is_attribute && in_entity && is_whitespace_char(val) => {
+                    out.buffer.push(' ')
+                }
                 Txt::Char(_pos, val) => out.buffer.push(val),
                 Txt::Entity(pos, name) => {
                     let span = pos..pos + name.len();
-- 
2.43.0


From 2a5d34b0d9687285bd553e6ceffd62bb12c3e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:52 +0000
Subject: [PATCH 80/80] fix: do not accept the name xmlns for an attribute with
 white space around it

---
 relaxng-syntax/src/xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 6b33f3b..4a9df74 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -380,7 +380,7 @@ fn attribute(node: Node) -> Result<AttributePattern> {
     let (name_class, rest) = if let Some(name) = att(node, "name") {
         // unlike elements, attributes do not inherit the 'ns' of the elements around them
         let ns = att(node, "ns").map_or(Literal::new(0..0, String::new()), |ns| ns_literal(&ns));
-        if name.value() == "xmlns" && ns.as_string_value().is_empty() {
+        if trim(name.value()) == "xmlns" && ns.as_string_value().is_empty() {
             return Err(Error::Unexpected(
                 name.range_value(),
                 "Schemas may not define the xmlns attribute",
-- 
2.43.0

