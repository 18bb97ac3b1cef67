From 8905ae2a5d3e96e58ca92cba85a35121f722c5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 01/17] fix: node handles that outlive their tree no longer
 panic in parent/root/namespace_uri

---
 src/dom.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 196d2d4..e3954c4 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -162,6 +162,17 @@ fn make_new_child_rc_node(node_type: NodeType, parent: &mut RcNode,
     return node;
 }
 
+// ---------------------------------------------------------------------
+// 親のRcNodeを返す。
+// 親がない場合、または親への参照がすべて破棄されている場合はNoneを返す。
+//
+fn parent_rc_node(rc_node: &RcNode) -> Option<RcNode> {
+    match rc_node.parent {
+        Some(ref p) => return p.borrow().upgrade(),
+        None => return None,
+    }
+}
+
 // =====================================================================
 /// Parses the XML string and creates the DOM tree and
 /// returns the topmost DocumentRoot node.
@@ -440,8 +451,8 @@ impl NodePtr {
             if let Some(value) = val {
                 return value.clone();
             }
-            curr = match (*curr).parent {
-                Some(ref p) => p.borrow().upgrade().unwrap(),
+            curr = match parent_rc_node(&curr) {
+                Some(p) => p,
                 None => return String::new(),
             };
         }
@@ -466,8 +477,8 @@ impl NodePtr {
     pub fn root(&self) -> NodePtr {
         let mut curr = self.unwrap_rc();
         loop {
-            curr = match (*curr).parent {
-                Some(ref p) => p.borrow().upgrade().unwrap(),
+            curr = match parent_rc_node(&curr) {
+                Some(p) => p,
                 None => return wrap_rc_clone(&curr),
             };
         }
@@ -491,6 +502,9 @@ impl NodePtr {
     ///
     pub fn root_element(&self) -> NodePtr {
         let doc_root = self.root();
+        if doc_root.node_type() == NodeType::Element {
+            return doc_root;
+        }
         for ch in doc_root.children().iter() {
             if ch.node_type() == NodeType::Element {
                 return ch.clone();
@@ -501,7 +515,8 @@ impl NodePtr {
 
     // =================================================================
     /// Returns the parent of the 'node', or None
-    /// if 'node' has no parent (i.e. is DocumentRoot).
+    /// if 'node' has no parent (i.e. is DocumentRoot,
+    /// or its parent has been dropped).
     ///
     /// # Examples
     ///
@@ -515,11 +530,8 @@ impl NodePtr {
     /// ```
     ///
     pub fn parent(&self) -> Option<NodePtr> {
-        match self.unwrap_rc().parent {
-            Some(ref p) => {
-                let parent_node = p.borrow().upgrade().unwrap();
-                return Some(wrap_rc_clone(&parent_node));
-            },
+        match parent_rc_node(&self.rc_node) {
+            Some(ref p) => return Some(wrap_rc_clone(p)),
             None => return None,
         }
     }
-- 
2.43.0


From 9806ee63f8548b3cfd0c008f9f89d3ae81328f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 02/17] fix: inserting a node tree inserts an independent copy
 with correct parents

---
 src/dom.rs | 47 ++++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index e3954c4..95927d6 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -251,14 +251,20 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
 }
 
 // ---------------------------------------------------------------------
+// sourceを頂点とする木全体を複写し、parentを親とする木として返す。
 //
-fn shallow_copy_rc_rels(target: &mut RcNode, source: &RcNode) {
-    for ch in source.children.borrow().iter() {
-        target.children.borrow_mut().push(Rc::clone(ch));
-    }
+fn deep_copy_rc_node(source: &RcNode, parent: &mut RcNode) -> RcNode {
+    let mut node = make_new_rc_node(source.node_type.clone(),
+                Some(parent), &source.name, &source.value);
     for at in source.attributes.borrow().iter() {
-        target.attributes.borrow_mut().push(Rc::clone(at));
+        let at_dup = deep_copy_rc_node(at, &mut node);
+        node.attributes.borrow_mut().push(at_dup);
     }
+    for ch in source.children.borrow().iter() {
+        let ch_dup = deep_copy_rc_node(ch, &mut node);
+        node.children.borrow_mut().push(ch_dup);
+    }
+    return node;
 }
 
 // =====================================================================
@@ -600,7 +606,7 @@ impl NodePtr {
     }
 
     // =================================================================
-    /// Appends the node tree 'new_child' as the last child of
+    /// Appends (a copy of) the node tree 'new_child' as the last child of
     /// the element node.
     ///
     /// # Examples
@@ -624,14 +630,15 @@ impl NodePtr {
     /// ```
     ///
     pub fn append_child(&self, new_child: &NodePtr) {
-        let rc_self = self.unwrap_rc();
+        let mut rc_self = self.unwrap_rc();
         let rc_new_child = new_child.unwrap_rc();
-        rc_self.children.borrow_mut().push(Rc::clone(&rc_new_child));
+        let rc_new_child_dup = deep_copy_rc_node(&rc_new_child, &mut rc_self);
+        rc_self.children.borrow_mut().push(rc_new_child_dup);
         self.clear_document_order();
     }
 
     // =================================================================
-    /// Inserts the child node tree as the previous sibling of 'self' node.
+    /// Inserts (a copy of) the child node tree as the previous sibling of 'self' node.
     ///
     /// # Examples
     ///
@@ -663,19 +670,14 @@ impl NodePtr {
             let mut rc_parent = parent.unwrap_rc();
             let rc_new_node = new_node.unwrap_rc();
 
-            let mut rc_new_node_dup = make_new_child_rc_node(
-                rc_new_node.node_type.clone(),
-                &mut rc_parent,
-                &rc_new_node.name,
-                &rc_new_node.value,
-                n);
-            shallow_copy_rc_rels(&mut rc_new_node_dup, &rc_new_node);
+            let rc_new_node_dup = deep_copy_rc_node(&rc_new_node, &mut rc_parent);
+            rc_parent.children.borrow_mut().insert(n, rc_new_node_dup);
         }
         self.clear_document_order();
     }
 
     // =================================================================
-    /// Inserts the child node tree as the next sibling of 'self' node.
+    /// Inserts (a copy of) the child node tree as the next sibling of 'self' node.
     ///
     /// # Examples
     ///
@@ -707,13 +709,8 @@ impl NodePtr {
             let mut rc_parent = parent.unwrap_rc();
             let rc_new_node = new_node.unwrap_rc();
 
-            let mut rc_new_node_dup = make_new_child_rc_node(
-                rc_new_node.node_type.clone(),
-                &mut rc_parent,
-                &rc_new_node.name,
-                &rc_new_node.value,
-                n + 1);
-            shallow_copy_rc_rels(&mut rc_new_node_dup, &rc_new_node);
+            let rc_new_node_dup = deep_copy_rc_node(&rc_new_node, &mut rc_parent);
+            rc_parent.children.borrow_mut().insert(n + 1, rc_new_node_dup);
         }
         self.clear_document_order();
     }
@@ -749,7 +746,7 @@ impl NodePtr {
     }
 
     // =================================================================
-    /// Replaces the child node tree with 'self' node.
+    /// Replaces 'self' node with (a copy of) the node tree 'new_node'.
     ///
     /// # Examples
     ///
-- 
2.43.0


From d72d5308bc31e5ba8fbf7ed78f9e63bc01e199a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 03/17] fix: a removed node or attribute no longer claims its
 former parent

---
 src/dom.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 95927d6..41f0c06 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -250,6 +250,16 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
     return Ok(NodePtr{rc_node: doc_root});
 }
 
+// ---------------------------------------------------------------------
+// 親の子 (または属性) の並びから取り除いたノードについて、
+// 親への参照を断ち切り、独立した木の頂点とする。
+//
+fn detach_from_parent(rc_node: &RcNode) {
+    if let Some(ref p) = rc_node.parent {
+        *p.borrow_mut() = Weak::new();
+    }
+}
+
 // ---------------------------------------------------------------------
 // sourceを頂点とする木全体を複写し、parentを親とする木として返す。
 //
@@ -740,7 +750,8 @@ impl NodePtr {
         let n = self.find_child_index(target);
         if n != usize::MAX {
             let rc_node = self.unwrap_rc();
-            (*rc_node).children.borrow_mut().remove(n);
+            let removed = (*rc_node).children.borrow_mut().remove(n);
+            detach_from_parent(&removed);
         }
         self.clear_document_order();
     }
@@ -843,7 +854,8 @@ impl NodePtr {
 
         let r_index = self.find_attribute_index(name);
         if r_index != usize::MAX {
-            (*rc_node).attributes.borrow_mut().remove(r_index);
+            let removed = (*rc_node).attributes.borrow_mut().remove(r_index);
+            detach_from_parent(&removed);
             (*rc_node).attributes.borrow_mut().insert(r_index, Rc::clone(&attr_node));
         } else {
             (*rc_node).attributes.borrow_mut().push(Rc::clone(&attr_node));
@@ -870,7 +882,8 @@ impl NodePtr {
         let r_index = self.find_attribute_index(name);
         if r_index != usize::MAX {
             let rc_node = self.unwrap_rc();
-            (*rc_node).attributes.borrow_mut().remove(r_index);
+            let removed = (*rc_node).attributes.borrow_mut().remove(r_index);
+            detach_from_parent(&removed);
         }
         self.clear_document_order();
     }
-- 
2.43.0


From aa9cdcb4c50f0808da172aa69f2accebed8f95b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 04/17] fix: document order of a subtree that becomes a tree of
 its own is never stale

---
 src/dom.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 41f0c06..49a3599 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -901,10 +901,19 @@ impl NodePtr {
     }
 
     // -----------------------------------------------------------------
+    // 変更箇所から頂点までの各ノードについて、文書順を未設定の状態に戻す。
+    // 頂点だけ戻したのでは、あとで途中のノードが別の木の頂点になった
+    // (削除された、または親が破棄された) とき、古い文書順が残ってしまう。
     //
     fn clear_document_order(&self) {
-        let root = self.root();
-        root.unwrap_rc().order.set(0);
+        let mut curr = self.unwrap_rc();
+        loop {
+            curr.order.set(0);
+            curr = match parent_rc_node(&curr) {
+                Some(p) => p,
+                None => return,
+            };
+        }
     }
 
     // =================================================================
-- 
2.43.0


From 7c995f6843d52cf32484bd3ac90c4bd5b18580c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 05/17] fix: end of input inside a start tag is an error, not
 an endless loop

---
 src/sax.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sax.rs b/src/sax.rs
index 6c8d53b..434e41d 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -272,7 +272,9 @@ impl SaxDecoder {
                         }
                     }
                     ch = self.getchar();
-                    if ch == '>' {
+                    if ch == EOF {
+                        return Err(xml_syntax_error!("Unexpected EOF in start tag <{}", name));
+                    } else if ch == '>' {
                         break;
                     } else if ch == '/' {       // Standalone Element
                         ch = self.getchar();
-- 
2.43.0


From 7d62504f17dc5c37777e6bf7c035c79184ee880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 06/17] fix: a document that ends with unclosed elements is
 rejected

---
 src/dom.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 49a3599..5a7d4fb 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -194,6 +194,11 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
     loop {
         match dec.raw_token() {
             Ok(XmlToken::EOF) => {
+                if curr_node.node_type != NodeType::DocumentRoot {
+                    return Err(xml_syntax_error!(
+                        "Unexpected EOF: element {} is not closed",
+                        curr_node.name.as_str()));
+                }
                 break;
             },
             Ok(XmlToken::StartElement{name, attr}) => {
-- 
2.43.0


From 0beeeaaca7987fb81cc1d235a76ba6dc4c8451d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 07/17] fix: a U+0000 in the input is rejected, not taken for
 the end of input

---
 src/sax.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sax.rs b/src/sax.rs
index 434e41d..d95f6d6 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -149,7 +149,15 @@ impl SaxDecoder {
     // -----------------------------------------------------------------
     /// Creates a new XML parser reading from String.
     ///
+    /// # Errors
+    ///
+    /// - When the string contains U+0000, which is not allowed in XML.
+    ///
     pub fn new(xml_string: &str) -> Result<SaxDecoder, Box<Error>> {
+        if xml_string.contains(EOF) {
+            // U+0000はEOFの印として使うので、黙って打ち切られないようにする。
+            return Err(xml_syntax_error!("Invalid character U+0000"));
+        }
         return Ok(SaxDecoder{
             char_vec: xml_string.chars().filter(|x| *x != '\r').collect(),
                 // XML 1.0: 行末の処理
-- 
2.43.0


From 7d0dc54b12b23ca69addd4a32e1feb817751b4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 08/17] fix: a carriage return survives serialisation and
 reparsing

---
 src/dom.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dom.rs b/src/dom.rs
index 5a7d4fb..8bd7c2e 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1039,6 +1039,7 @@ fn encode_entity(s: &String) -> String {
         [ "<", "&lt;" ],
         [ "\"", "&quot;" ],
         [ "'", "&apos;" ],
+        [ "\r", "&#13;" ],      // そのまま書くと、再解析の際に行末の処理で失われる
     ];
     let mut str = s.clone();
     for spec in specs.iter() {
-- 
2.43.0


From 3d3d9358049d7137bfc990e5f54c39bc90b82752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 09/17] fix: a predicate that yields several nodes uses its
 effective boolean value

---
 src/xpath_impl/eval.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 7361426..2095e93 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1305,19 +1305,13 @@ fn filter_by_predicate(xseq: &XSequence, xnode: &XNodePtr,
         eval_env.set_position(old_position);
 
         // 評価結果をもとに、このアイテムを残すかどうか判定する。
-        let mut do_push = false;
-        match val.get_singleton_item() {
-            Ok(XItem::XIInteger{value}) => {
-                do_push = value == usize_to_i64(position);
-            },
-            Ok(XItem::XINode{value: _}) => {
-                do_push = true;
-            },
-            Ok(XItem::XIBoolean{value}) => {
-                do_push = value;
-            },
-            _ => {},
-        }
+        // (数値ならば文脈位置との比較、それ以外は有効ブール値)
+        let do_push = match val.get_singleton_item() {
+            Ok(XItem::XIInteger{value}) => value == usize_to_i64(position),
+            Ok(XItem::XIDecimal{value}) |
+            Ok(XItem::XIDouble{value}) => value == position as f64,
+            _ => val.effective_boolean_value()?,
+        };
         if do_push {
             result.push(&xitem.clone());
         }
-- 
2.43.0


From 240e9c93b3e28217fd19c4f77b584b397422c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 10/17] fix: intersect and except return their nodes in
 document order

---
 src/xpath_impl/oper.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index ca093de..1b06e00 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -219,7 +219,7 @@ pub fn op_union(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence,
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-pub fn op_intersect(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+pub fn op_intersect(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -227,11 +227,11 @@ pub fn op_intersect(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSeque
             node_array.push(n.rc_clone());
         }
     }
-    // eval_env.sort_by_doc_order(&mut node_array);
+    eval_env.sort_by_doc_order(&mut node_array);
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-pub fn op_except(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+pub fn op_except(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -239,7 +239,7 @@ pub fn op_except(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence
             node_array.push(n.rc_clone());
         }
     }
-    // eval_env.sort_by_doc_order(&mut node_array);
+    eval_env.sort_by_doc_order(&mut node_array);
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-- 
2.43.0


From d783daf950630e4cb0832debe74b4cb68ba8dd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 11/17] fix: character and entity references are decoded
 exactly once

---
 src/sax.rs | 71 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 37 insertions(+), 34 deletions(-)

diff --git a/src/sax.rs b/src/sax.rs
index d95f6d6..89d145c 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -881,47 +881,50 @@ fn char_is_in_ranges(ch: char, ch_ranges: &[(u32, u32)]) -> bool {
 // [68] EntityRef ::= '&' Name ';'              // 実体参照
 //
 fn decode_entity(s: &String) -> String {
+    let entity_specs = [
+        ( "&gt;", '>' ),
+        ( "&lt;", '<' ),
+        ( "&quot;", '"' ),
+        ( "&apos;", '\'' ),
+        ( "&amp;", '&' ),
+    ];
 
-    // -----------------------------------------------------------------
-    //
-    let mut buf = s.clone();
-    for (pattern, radix) in [("&#x", 16), ("&#", 10)].iter() {
-        loop {
-            let ss = buf.clone();
-            let v: Vec<&str> = ss.splitn(2, pattern).collect();
-            if v.len() != 2 {
-                break;
+    // 先頭から順に1回だけデコードする (デコード結果を再度デコードしない)。
+    let mut buf = String::new();
+    let mut rest: &str = s.as_str();
+    'scan: while let Some(pos) = rest.find('&') {
+        buf.push_str(&rest[.. pos]);
+        rest = &rest[pos ..];
+
+        for &(pattern, ch) in entity_specs.iter() {
+            if rest.starts_with(pattern) {
+                buf.push(ch);
+                rest = &rest[pattern.len() ..];
+                continue 'scan;
             }
+        }
 
-            let w: Vec<&str> = v[1].splitn(2, ";").collect();
-            if w.len() != 2 {
-                break;
+        if rest.starts_with("&#") {
+            if let Some(end) = rest.find(';') {
+                let (digits, radix) = if rest.starts_with("&#x") {
+                        (&rest[3 .. end], 16)
+                    } else {
+                        (&rest[2 .. end], 10)
+                    };
+                let ch = match u32::from_str_radix(digits, radix) {
+                    Ok(0) | Err(_) => '〓',          // U+0000はXMLでは使えない
+                    Ok(u) => char::from_u32(u).unwrap_or('〓'),
+                };
+                buf.push(ch);
+                rest = &rest[end + 1 ..];
+                continue 'scan;
             }
-
-            let head = v[0];
-            let entity = w[0];
-            let tail = w[1];
-
-            let u = u32::from_str_radix(&entity, *radix as u32).unwrap_or(0x3013);
-                                                            // \u3013 = '〓'
-            let ch = char::from_u32(u).unwrap_or('〓');
-            buf = format!("{}{}{}", &head, ch, &tail);
         }
-    }
 
-    // -----------------------------------------------------------------
-    //
-    let entity_specs = [
-        [ "&gt;", ">" ],
-        [ "&lt;", "<" ],
-        [ "&quot;", "\"" ],
-        [ "&apos;", "'" ],
-        [ "&amp;", "&" ],
-    ];
-    for spec in entity_specs.iter() {
-        buf = buf.replace(spec[0], spec[1]);
+        buf.push('&');
+        rest = &rest[1 ..];
     }
-
+    buf.push_str(rest);
     return buf;
 }
 
-- 
2.43.0


From 73f7e0ea9f0472a7ed3053c5a8223e9d57d36737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 12/17] fix: a lone carriage return is normalised to a newline,
 not dropped

---
 src/sax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sax.rs b/src/sax.rs
index 89d145c..fedd08d 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -159,7 +159,7 @@ impl SaxDecoder {
             return Err(xml_syntax_error!("Invalid character U+0000"));
         }
         return Ok(SaxDecoder{
-            char_vec: xml_string.chars().filter(|x| *x != '\r').collect(),
+            char_vec: xml_string.replace("\r\n", "\n").replace("\r", "\n").chars().collect(),
                 // XML 1.0: 行末の処理
                 // 解析前に改行すべてを #x0A に標準化する。
             index: 0,
-- 
2.43.0


From 8461ed0e5c43b01f33526fbe986b7e0f6da44bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 13/17] fix: the first character of a declaration counts as a
 bracket

In '<!>' or '<!<' the character after '<!' was taken without looking at
it, so the end of the declaration was found one bracket too late or too
early, and start tags after it were silently swallowed.
---
 src/sax.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sax.rs b/src/sax.rs
index fedd08d..63e1c57 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -232,8 +232,9 @@ impl SaxDecoder {
                         return Err(xml_syntax_error!("Invalid sequence '<![', not part of '<![CDATA[' "));
                     }
                 } else {                            // <!DOCTYPE ...>, etc.
-                    let directive = format!("<!{}{}",
-                        ch, &self.get_until_matching_bracket()?);
+                    self.ungetchar();
+                    let directive = format!("<!{}",
+                        &self.get_until_matching_bracket()?);
                     return Ok(XmlToken::Directive{directive: directive});
                 }
 
-- 
2.43.0


From 5b56c071d9aeba0603239782f358d75984ff7769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:13 +0000
Subject: [PATCH 14/17] fix: reject stray characters in tags instead of
 dropping them

---
 src/sax.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/sax.rs b/src/sax.rs
index 63e1c57..f8936f3 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -194,7 +194,11 @@ impl SaxDecoder {
             //
             } else if ch == '/' {              // End Element: </foo>
                 let name = self.get_name();
-                self.get_until_ch('>')?;
+                self.skip_spaces();
+                let garbage = self.get_until_ch('>')?;
+                if name == "" || garbage != "" {
+                    return Err(xml_syntax_error!("Illegal end tag </{}{}>", name, garbage));
+                }
                 return Ok(XmlToken::EndElement{name});
 
             // ---------------------------------------------------------
@@ -208,6 +212,9 @@ impl SaxDecoder {
                 let target = self.get_name();
                 self.skip_spaces();
                 let inst = self.get_until("?>")?;
+                if target == "" {
+                    return Err(xml_syntax_error!("Processing instruction without target"));
+                }
                 return Ok(XmlToken::ProcInst{target, inst});
 
             // ---------------------------------------------------------
@@ -255,6 +262,9 @@ impl SaxDecoder {
             } else {                    // Start Element
                 self.ungetchar();
                 let name = self.get_name();
+                if name == "" {
+                    return Err(xml_syntax_error!("Element name is expected after <"));
+                }
                 let mut attr = vec!{};
                 loop {
                     self.skip_spaces();
@@ -293,6 +303,8 @@ impl SaxDecoder {
                         } else {
                             return Err(xml_syntax_error!("illegal char after /"));
                         }
+                    } else if ! is_space(ch) {
+                        return Err(xml_syntax_error!("illegal char '{}' in start tag <{}", ch, name));
                     }
                 }
                 return Ok(XmlToken::StartElement{name, attr});
-- 
2.43.0


From 14202d486780fa046aa98f64528b1a2ed639f076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:14 +0000
Subject: [PATCH 15/17] fix: some and every remove their variable when they end
 early

---
 src/xpath_impl/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 2095e93..345159b 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -593,10 +593,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             for xitem in range.iter() {
                 eval_env.set_var_item(var_name.as_str(), xitem);
                 let rhs = evaluate_xnode(xseq, &get_right(xnode), eval_env)?;
+                eval_env.remove_var(var_name.as_str());
                 if rhs.effective_boolean_value()? == true {
                     return Ok(new_singleton_boolean(true));
                 }
-                eval_env.remove_var(var_name.as_str());
             }
             return Ok(new_singleton_boolean(false));
         },
@@ -611,10 +611,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             for xitem in range.iter() {
                 eval_env.set_var_item(var_name.as_str(), xitem);
                 let rhs = evaluate_xnode(xseq, &get_right(xnode), eval_env)?;
+                eval_env.remove_var(var_name.as_str());
                 if rhs.effective_boolean_value()? == false {
                     return Ok(new_singleton_boolean(false));
                 }
-                eval_env.remove_var(var_name.as_str());
             }
             return Ok(new_singleton_boolean(true));
         },
-- 
2.43.0


From d5f1160264998eedfe7d2c10cedf71e34f622c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:15 +0000
Subject: [PATCH 16/17] fix: following and preceding axes of an attribute

---
 src/xpath_impl/eval.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 345159b..fe2b628 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -950,6 +950,10 @@ fn array_following(node: &NodePtr) -> Vec<NodePtr> {
                 self_occured = true;
             }
         }
+    } else if let Some(parent) = node.parent() {
+        // 属性ノードに後続するのは、親要素の子孫と、親要素に後続するノード。
+        node_array.append(&mut array_descendant(&parent));
+        node_array.append(&mut array_following(&parent));
     }
     return node_array;
 }
@@ -992,6 +996,9 @@ fn array_preceding(node: &NodePtr) -> Vec<NodePtr> {
                 node_array.push(ch.rc_clone());
             }
         }
+    } else if let Some(parent) = node.parent() {
+        // 属性ノードに先行するのは、親要素に先行するノード (先祖は除く)。
+        return array_preceding(&parent);
     }
     return node_array;
 }
-- 
2.43.0


From baa6a0f48d23f36d5081046b6366e1433881ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:13 +0000
Subject: [PATCH 17/17] fix: release deep trees without recursion

---
 src/dom.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 8bd7c2e..cb9d938 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -124,6 +124,22 @@ struct Node {
     attributes: RefCell<Vec<RcNode>>,
 }
 
+// ---------------------------------------------------------------------
+// 子孫ノードを、再帰によらずに解放する。
+// 再帰的に解放すると、入れ子の深い木でスタックがあふれる。
+//
+impl Drop for Node {
+    fn drop(&mut self) {
+        let mut pending: Vec<RcNode> = vec!{};
+        pending.append(self.children.get_mut());
+        while let Some(rc_node) = pending.pop() {
+            if let Ok(mut node) = Rc::try_unwrap(rc_node) {
+                pending.append(node.children.get_mut());
+            }
+        }
+    }
+}
+
 // ---------------------------------------------------------------------
 // RcNodeを生成する。親があるとは限らない。
 //
-- 
2.43.0

