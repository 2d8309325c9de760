From 97d6a19a065c1c9eeeec551bfda07f79a01713bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:37 +0000
Subject: [PATCH 01/21] fix: compute Node::root() by walking up the parents

The cached root was not updated for the descendants of a moved node and was
left in place by detach(), so root() returned a stale node or panicked.
---
 src/tree.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 4578bbb..d0252c1 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -27,7 +27,6 @@ type WeakLink<T> = Weak<RefCell<NodeData<T>>>;
 pub struct Node<T>(Link<T>);
 
 struct NodeData<T> {
-    root: Option<WeakLink<T>>,
     parent: Option<WeakLink<T>>,
     first_child: Option<Link<T>>,
     last_child: Option<WeakLink<T>>,
@@ -76,7 +75,6 @@ impl<T> Node<T> {
     /// Creates a new node from its associated data.
     pub(crate) fn new(data: T) -> Node<T> {
         Node(Rc::new(RefCell::new(NodeData {
-            root: None,
             parent: None,
             first_child: None,
             last_child: None,
@@ -94,10 +92,12 @@ impl<T> Node<T> {
     ///
     /// Panics if the node is currently mutably borrowed.
     pub fn root(&self) -> Node<T> {
-        match self.0.borrow().root.as_ref() {
-            Some(v) => Node(v.upgrade().unwrap()),
-            None => self.clone(),
+        let mut root = self.clone();
+        while let Some(parent) = root.parent() {
+            root = parent;
         }
+
+        root
     }
 
     /// Returns a parent node, unless this node is the root of the tree.
@@ -243,7 +243,6 @@ impl<T> Node<T> {
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
             new_child_borrow.detach();
-            new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             if let Some(last_child_weak) = self_borrow.last_child.take() {
                 if let Some(last_child_strong) = last_child_weak.upgrade() {
@@ -277,7 +276,6 @@ impl<T> Node<T> {
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
             new_child_borrow.detach();
-            new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             match self_borrow.first_child.take() {
                 Some(first_child_strong) => {
@@ -309,7 +307,6 @@ impl<T> Node<T> {
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
             new_sibling_borrow.detach();
-            new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));
             match self_borrow.next_sibling.take() {
@@ -350,7 +347,6 @@ impl<T> Node<T> {
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
             new_sibling_borrow.detach();
-            new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.next_sibling = Some(self.0.clone());
             if let Some(previous_sibling_weak) = self_borrow.previous_sibling.take() {
-- 
2.43.0


From b0fa1895fdd5b8b7bc2a57df8439283edd5aafbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:10 +0000
Subject: [PATCH 02/21] fix: detach a node before borrowing its new parent or
 sibling

append, prepend, insert_after and insert_before panicked with BorrowMutError
when the moved node was already adjoining: the first or the last child of the
new parent, or a direct neighbour of the new sibling.
---
 src/tree.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index d0252c1..13d8d0a 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -238,11 +238,13 @@ impl<T> Node<T> {
     pub fn append(&mut self, new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be appended to itself");
 
+        // `detach` borrows the adjoining nodes, and `self` can be one of them.
+        new_child.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         let mut last_child_opt = None;
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.detach();
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             if let Some(last_child_weak) = self_borrow.last_child.take() {
                 if let Some(last_child_strong) = last_child_weak.upgrade() {
@@ -272,10 +274,12 @@ impl<T> Node<T> {
     pub fn prepend(&mut self, new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be prepended to itself");
 
+        // `detach` borrows the adjoining nodes, and `self` can be one of them.
+        new_child.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.detach();
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             match self_borrow.first_child.take() {
                 Some(first_child_strong) => {
@@ -303,10 +307,12 @@ impl<T> Node<T> {
     pub fn insert_after(&mut self, new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted after itself");
 
+        // `detach` borrows the adjoining nodes, and `self` can be one of them.
+        new_sibling.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.detach();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));
             match self_borrow.next_sibling.take() {
@@ -342,11 +348,13 @@ impl<T> Node<T> {
     pub fn insert_before(&mut self, new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted before itself");
 
+        // `detach` borrows the adjoining nodes, and `self` can be one of them.
+        new_sibling.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         let mut previous_sibling_opt = None;
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.detach();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.next_sibling = Some(self.0.clone());
             if let Some(previous_sibling_weak) = self_borrow.previous_sibling.take() {
-- 
2.43.0


From f20f24824a30d00f67642d713cf56ff9cac31473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:36 +0000
Subject: [PATCH 03/21] fix: refuse to insert a node into its own subtree

Only the node itself was checked, so inserting an ancestor silently created
a cycle that hangs traversals and leaks the nodes.
---
 src/tree.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tree.rs b/src/tree.rs
index 13d8d0a..07bbd40 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -237,6 +237,8 @@ impl<T> Node<T> {
     /// Panics if the node, the new child, or one of their adjoining nodes is currently borrowed.
     pub fn append(&mut self, new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be appended to itself");
+        assert!(!self.ancestors().any(|n| n == new_child),
+                "a node cannot be appended to its own descendant");
 
         // `detach` borrows the adjoining nodes, and `self` can be one of them.
         new_child.0.borrow_mut().detach();
@@ -273,6 +275,8 @@ impl<T> Node<T> {
     /// Panics if the node, the new child, or one of their adjoining nodes is currently borrowed.
     pub fn prepend(&mut self, new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be prepended to itself");
+        assert!(!self.ancestors().any(|n| n == new_child),
+                "a node cannot be prepended to its own descendant");
 
         // `detach` borrows the adjoining nodes, and `self` can be one of them.
         new_child.0.borrow_mut().detach();
@@ -306,6 +310,8 @@ impl<T> Node<T> {
     /// Panics if the node, the new sibling, or one of their adjoining nodes is currently borrowed.
     pub fn insert_after(&mut self, new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted after itself");
+        assert!(!self.ancestors().any(|n| n == new_sibling),
+                "a node cannot be inserted after its own descendant");
 
         // `detach` borrows the adjoining nodes, and `self` can be one of them.
         new_sibling.0.borrow_mut().detach();
@@ -347,6 +353,8 @@ impl<T> Node<T> {
     /// Panics if the node, the new sibling, or one of their adjoining nodes is currently borrowed.
     pub fn insert_before(&mut self, new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted before itself");
+        assert!(!self.ancestors().any(|n| n == new_sibling),
+                "a node cannot be inserted before its own descendant");
 
         // `detach` borrows the adjoining nodes, and `self` can be one of them.
         new_sibling.0.borrow_mut().detach();
-- 
2.43.0


From b7b1b8374eaecfb6cfc2076550e5bfbf111fe1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:37 +0000
Subject: [PATCH 04/21] fix: remove links stored under non-SVG attribute names
 in remove_node

Only attributes with an SVG name were inspected, so a link under a custom name
kept pointing to (or was still counted by) a removed node.
---
 src/document.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 0465e58..12aab2b 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -12,7 +12,6 @@ use crate::{
     AttributeValue,
     ElementId,
     FilterSvg,
-    FilterSvgAttrs,
     Node,
     NodeData,
     NodeType,
@@ -240,7 +239,7 @@ impl Document {
     fn _remove(&mut self, mut node: Node, ids: &mut Vec<AttributeQName>) {
         ids.clear();
 
-        for (_, attr) in node.attributes().iter().svg() {
+        for attr in node.attributes().iter() {
             match attr.value {
                   AttributeValue::Link(_)
                 | AttributeValue::FuncLink(_)
@@ -260,7 +259,7 @@ impl Document {
         for mut linked in linked_nodes {
             ids.clear();
 
-            for (_, attr) in linked.attributes().iter().svg() {
+            for attr in linked.attributes().iter() {
                 match attr.value {
                       AttributeValue::Link(ref link)
                     | AttributeValue::FuncLink(ref link)
-- 
2.43.0


From 800757a871978914dcf2f232607251557e4759d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:03 +0000
Subject: [PATCH 05/21] fix: let a later value override a link from a less
 specific source

Links are resolved after all attributes were set, so a fill='url(#a)' attribute
won over style='fill:red' and over any matching CSS rule.
---
 src/parser/mod.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b218a6a..1aaa8ef 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -41,6 +41,20 @@ impl Links {
             node: node.clone(),
         });
     }
+
+    /// Removes links that were collected for the specified attribute of the current node.
+    ///
+    /// The current node is the last one that has added links,
+    /// so its links are always at the end of the list.
+    fn remove(&mut self, id: AttributeId, node: &Node) {
+        let mut i = self.list.len();
+        while i > 0 && self.list[i - 1].node == *node {
+            i -= 1;
+            if self.list[i].attr_id == id {
+                self.list.remove(i);
+            }
+        }
+    }
 }
 
 pub fn parse_svg(text: &str) -> Result<Document, ParserError> {
@@ -218,7 +232,11 @@ fn parse_svg_attribute_value<'a>(
                     AttributeValue::NumberList(ref list) if list.is_empty() => {}
                     AttributeValue::LengthList(ref list) if list.is_empty() => {}
                     AttributeValue::Path(ref path) if path.is_empty() => {}
-                    _ => node.set_attribute((id, av)),
+                    _ => {
+                        // A new value overrides a link from a less specific source.
+                        links.remove(id, node);
+                        node.set_attribute((id, av));
+                    }
                 }
             }
         }
-- 
2.43.0


From 234d4f573b2711e9bf97f2b136eeadbe0a8c7919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:04 +0000
Subject: [PATCH 06/21] fix: let an identity transform override a less specific
 one

transform='scale(2)' style='transform:scale(1)' kept the scale(2).
---
 src/parser/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1aaa8ef..d0dd38b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -527,6 +527,9 @@ fn _parse_svg_attribute_value<'a>(
             if !ts.is_default() {
                 AttributeValue::Transform(Transform::from_str(value)?)
             } else {
+                // The default transform is not stored,
+                // but it overrides a value from a less specific source.
+                node.remove_attribute(aid);
                 return Ok(None);
             }
         }
-- 
2.43.0


From 2220fea6fd3d11829e011c8a7c0c3dce3e75dc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:06 +0000
Subject: [PATCH 07/21] fix: do not register links of removed 'style' elements

A universal CSS selector sets links on 'style' elements too. They were resolved
after the elements were removed, so a removed node stayed in linked_nodes.
---
 src/parser/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d0dd38b..996764a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -684,6 +684,11 @@ fn parse_style_attribute(
 
 fn resolve_links(doc: &Document, links: &mut Links) {
     for d in &mut links.list {
+        // A 'style' element can collect links too, but it was already removed.
+        if d.node.is_detached() {
+            continue;
+        }
+
         match doc.root().descendants().find(|n| *n.id() == d.iri) {
             Some(node) => {
                 let res = if d.attr_id == AttributeId::Fill || d.attr_id == AttributeId::Stroke {
-- 
2.43.0


From 70b7ac065adc328499fce3bb77cf23d68c4dd74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:07 +0000
Subject: [PATCH 08/21] fix: process whitespaces when a text node is not the
 first child

<text><tspan>A</tspan>
   B
</text> kept its newlines and duplicated spaces.
---
 src/parser/text.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 03b9d52..dd220a1 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -53,11 +53,9 @@ fn _prepare_text(parent: &Node, nodes: &mut Vec<Node>, parent_xmlspace: XmlSpace
     for mut node in parent.children().filter(|n| n.is_element()) {
         let xmlspace = get_xmlspace(&mut node, nodes, parent_xmlspace);
 
-        if let Some(child) = node.first_child() {
-            if child.is_text() {
-                prepare_text_children(&node, nodes, xmlspace);
-                continue;
-            }
+        if node.children().any(|n| n.is_text()) {
+            prepare_text_children(&node, nodes, xmlspace);
+            continue;
         }
 
         _prepare_text(&node, nodes, xmlspace);
-- 
2.43.0


From e01f289090cb259520ae2ae62dc87b899ae9da9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:08 +0000
Subject: [PATCH 09/21] fix: inherit xml:space from the parent inside of text
 elements

<tspan xml:space='preserve'><tspan> a  b </tspan></tspan> was collapsed, because
nested elements used the value of the topmost element and not of their parent.
---
 src/parser/text.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index dd220a1..cadac61 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -91,6 +91,12 @@ fn set_xmlspace(node: &mut Node, nodes: &mut Vec<Node>, xmlspace: XmlSpace) {
 fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace: XmlSpace) {
     // Trim all descendant text nodes.
     for mut child in parent.descendants() {
+        if child.is_element() && child != *parent {
+            // 'xml:space' is inherited from the parent element, which was already processed.
+            let parent_xmlspace = get_xmlspace(&mut child.parent().unwrap(), marked_nodes, xmlspace);
+            get_xmlspace(&mut child, marked_nodes, parent_xmlspace);
+        }
+
         if child.is_text() {
             let child_xmlspace = get_xmlspace(&mut child.parent().unwrap(), marked_nodes, xmlspace);
             let new_text = {
-- 
2.43.0


From 1f5702104f038dcbdcb9271f17e1831fc4dd42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:49 +0000
Subject: [PATCH 10/21] fix: remove the trailing space of a text element with
 two text nodes

'<text> a <tspan> b </tspan></text>' lost its leading space, but not the
trailing one, because only one of them was removed per pair of nodes.
---
 src/parser/text.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index cadac61..3d5b1f5 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -224,10 +224,12 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
             {
                 // Remove leading space of the first text node.
                 node1.text_mut().remove_first();
-            } else if    is_last
-                      && c4 == Some(b' ')
-                      && !node2.text().is_empty()
-                      && xmlspace2 == XmlSpace::Default
+            }
+
+            if     is_last
+                && c4 == Some(b' ')
+                && !node2.text().is_empty()
+                && xmlspace2 == XmlSpace::Default
             {
                 // Remove trailing space of the last text node.
                 // Also check that 'text2' is not empty already.
-- 
2.43.0


From 80813c0380f4c28934d0ff7d7ac4b3ef9dac0d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:43 +0000
Subject: [PATCH 11/21] fix: process whitespaces of a text element that has
 only tspan children

'<text><tspan>A</tspan><tspan> B</tspan></text>' became 'AB', because each tspan
was processed as a standalone text element.
---
 src/parser/text.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 3d5b1f5..ba300b2 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -4,6 +4,7 @@ use crate::{
     AttributeId,
     AttributeValue,
     Document,
+    ElementId,
     Node,
 };
 
@@ -53,7 +54,7 @@ fn _prepare_text(parent: &Node, nodes: &mut Vec<Node>, parent_xmlspace: XmlSpace
     for mut node in parent.children().filter(|n| n.is_element()) {
         let xmlspace = get_xmlspace(&mut node, nodes, parent_xmlspace);
 
-        if node.children().any(|n| n.is_text()) {
+        if node.has_tag_name(ElementId::Text) || node.children().any(|n| n.is_text()) {
             prepare_text_children(&node, nodes, xmlspace);
             continue;
         }
@@ -118,6 +119,9 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
 
         let mut node = nodes[0].0.clone();
 
+        // The text node can belong to a nested element.
+        let xmlspace = get_xmlspace(&mut node.parent().unwrap(), marked_nodes, xmlspace);
+
         if xmlspace == XmlSpace::Default {
             let mut text = node.text_mut();
 
-- 
2.43.0


From 66f4bc069f2228b9774b3764cc920fb80977f703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:45 +0000
Subject: [PATCH 12/21] fix: remove a leading space that follows empty text
 nodes

'<text> <tspan></tspan> A</text>' became ' A'.
---
 src/parser/text.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index ba300b2..4545968 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -230,6 +230,15 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
                 node1.text_mut().remove_first();
             }
 
+            if     node1.text().is_empty()
+                && last_non_empty.is_none()
+                && xmlspace2 == XmlSpace::Default
+                && node2.text().starts_with(' ')
+            {
+                // All previous text nodes are empty, so this one is the first.
+                node2.text_mut().remove_first();
+            }
+
             if     is_last
                 && c4 == Some(b' ')
                 && !node2.text().is_empty()
-- 
2.43.0


From 9863b3e73fda0e9ba0634aecdb2858f51811c49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 13/21] fix: remember a single space as the last non-empty text
 node

'<text>A<tspan> <tspan> </tspan> B</tspan></text>' became 'A  B'.
---
 src/parser/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 4545968..4d35573 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -258,7 +258,7 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
                 node1.text_mut().remove_last();
             }
 
-            if !node1.text().trim().is_empty() {
+            if !node1.text().is_empty() {
                 last_non_empty = Some(node1.clone());
             }
 
-- 
2.43.0


From 6b286312bc617244d588d94dee7d77f0375e418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:21 +0000
Subject: [PATCH 14/21] fix: keep the trailing space of a preserved text node

'<text><tspan xml:space="preserve">A </tspan> </text>' became 'A'.
---
 src/parser/text.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 4d35573..7e82b43 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -251,6 +251,7 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
 
             if     is_last
                 && c2 == Some(b' ')
+                && xmlspace1 == XmlSpace::Default
                 && !node1.text().is_empty()
                 && node2.text().is_empty()
                 && node1.text().ends_with(' ')
-- 
2.43.0


From f231c1ef8d3bbc882f0f7c959190c508e290a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:54 +0000
Subject: [PATCH 15/21] fix: escape & and < in attribute values

href='a?b&amp;c' was written as is, so the output was not a well-formed XML.
---
 src/writer.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 6d8f784..e7a9dcf 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -197,7 +197,11 @@ fn write_attributes(
     }
 
     if node.has_id() {
-        xml.write_attribute("id", &node.id())
+        xml.write_attribute_raw("id", |buf| {
+            let start = buf.len();
+            buf.extend_from_slice(node.id().as_bytes());
+            escape_markup(buf, start);
+        });
     }
 
     let attrs = node.attributes();
@@ -224,18 +228,38 @@ fn write_attributes(
             }
 
         } else {
-            xml.write_attribute_raw(name, |buf| attr.value.write_buf_opt(&opt.values, buf));
+            xml.write_attribute_raw(name, |buf| write_value(&attr.value, opt, buf));
         }
     }
 
     // write non-SVG attributes
     for attr in attrs.iter() {
         if let QName::Name(ref name) = attr.name {
-            xml.write_attribute_raw(name, |buf| attr.value.write_buf_opt(&opt.values, buf));
+            xml.write_attribute_raw(name, |buf| write_value(&attr.value, opt, buf));
         }
     }
 }
 
+fn write_value(value: &AttributeValue, opt: &WriteOptions, out: &mut Vec<u8>) {
+    let start = out.len();
+    value.write_buf_opt(&opt.values, out);
+    escape_markup(out, start);
+}
+
+/// Escapes characters that cannot be used in an attribute value as is.
+///
+/// Quotes are escaped by the `xmlwriter`.
+fn escape_markup(out: &mut Vec<u8>, start: usize) {
+    for i in (start..out.len()).rev() {
+        let s: &[u8] = match out[i] {
+            b'&' => b"&amp;",
+            b'<' => b"&lt;",
+            _ => continue,
+        };
+        out.splice(i..i + 1, s.iter().cloned());
+    }
+}
+
 fn write_escaped(unicode: &str, out: &mut Vec<u8>) {
     use std::io::Write;
 
-- 
2.43.0


From f5613be0fd5320b98579f0609791c460ac733d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:43 +0000
Subject: [PATCH 16/21] fix: keep preserving whitespaces after a nested text
 element

---
 src/writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index e7a9dcf..922dbce 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -164,7 +164,10 @@ pub(crate) fn write_dom(doc: &Document, opt: &WriteOptions) -> String {
                 }
 
                 if node.has_tag_name(ElementId::Text) {
-                    xml.set_preserve_whitespaces(false);
+                    // A nested 'text' element doesn't end the outer one.
+                    let is_nested = node.ancestors().skip(1)
+                        .any(|n| n.has_tag_name(ElementId::Text));
+                    xml.set_preserve_whitespaces(is_nested);
                 }
             }
         }
-- 
2.43.0


From fa88937018942ac96be21ef126afe899a89b5d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:45 +0000
Subject: [PATCH 17/21] fix: escape tabs and line breaks in attribute values

---
 src/writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 922dbce..451b891 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -257,6 +257,10 @@ fn escape_markup(out: &mut Vec<u8>, start: usize) {
         let s: &[u8] = match out[i] {
             b'&' => b"&amp;",
             b'<' => b"&lt;",
+            // An XML parser replaces unescaped ones with spaces.
+            b'\t' => b"&#9;",
+            b'\n' => b"&#10;",
+            b'\r' => b"&#13;",
             _ => continue,
         };
         out.splice(i..i + 1, s.iter().cloned());
-- 
2.43.0


From 82add96c7ce3b2acd67a5e9b389764ad213d2bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:47 +0000
Subject: [PATCH 18/21] fix: escape ']]>' and carriage returns in text nodes

---
 src/writer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 451b891..e3587e5 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -154,7 +154,9 @@ pub(crate) fn write_dom(doc: &Document, opt: &WriteOptions) -> String {
                         xml.write_comment(&node.text());
                     }
                     NodeType::Text => {
-                        xml.write_text(&node.text());
+                        // `<` is escaped by the `xmlwriter`.
+                        let text = node.text().replace("]]>", "]]&gt;").replace('\r', "&#13;");
+                        xml.write_text(&text);
                     }
                 }
             }
-- 
2.43.0


From 9ee55c7d76cc599b1f83cd7ecfa4c1628b449a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:11 +0000
Subject: [PATCH 19/21] fix: escape a 'unicode' value that looks like a
 character reference

---
 src/writer.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index e3587e5..6441fb4 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -272,14 +272,10 @@ fn escape_markup(out: &mut Vec<u8>, start: usize) {
 fn write_escaped(unicode: &str, out: &mut Vec<u8>) {
     use std::io::Write;
 
-    if unicode.starts_with("&#") {
-        out.extend_from_slice(unicode.as_bytes());
-    } else {
-        for c in unicode.chars() {
-            out.extend_from_slice(b"&#x");
-            write!(out, "{:x}", c as u32).unwrap();
-            out.push(b';');
-        }
+    for c in unicode.chars() {
+        out.extend_from_slice(b"&#x");
+        write!(out, "{:x}", c as u32).unwrap();
+        out.push(b';');
     }
 }
 
-- 
2.43.0


From 71ea3b9f7d78e80d9df9cb14b8c92c65c6b1a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:33 +0000
Subject: [PATCH 20/21] fix: default values of stroke-miterlimit and
 glyph-orientation-horizontal have their own types

The parser stores them as a number and as an angle, but the defaults were
a length and a string, so a stored default never equalled default_value().
---
 src/attribute_value.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/attribute_value.rs b/src/attribute_value.rs
index 060f5d5..9091336 100644
--- a/src/attribute_value.rs
+++ b/src/attribute_value.rs
@@ -2,6 +2,7 @@ use std::fmt;
 
 use crate::{
     Angle,
+    AngleUnit,
     AspectRatio,
     AttributeId,
     Color,
@@ -221,12 +222,12 @@ impl AttributeValue {
             AttributeId::Display =>                     some!("inline"),
             AttributeId::EnableBackground =>            some!("accumulate"),
             AttributeId::FontSize =>                    some!("medium"),
-            AttributeId::GlyphOrientationHorizontal =>  some!("0deg"),
+            AttributeId::GlyphOrientationHorizontal =>  some!(Angle::new(0.0, AngleUnit::Degrees)),
             AttributeId::LightingColor =>               some!(Color::white()),
             AttributeId::StrokeDashoffset =>            some!((0.0, LengthUnit::None)),
             AttributeId::StrokeLinecap =>               some!("butt"),
             AttributeId::StrokeLinejoin =>              some!("miter"),
-            AttributeId::StrokeMiterlimit =>            some!((4.0, LengthUnit::None)),
+            AttributeId::StrokeMiterlimit =>            some!(4.0),
             AttributeId::StrokeWidth =>                 some!((1.0, LengthUnit::None)),
             AttributeId::TextAnchor =>                  some!("start"),
             AttributeId::Visibility =>                  some!("visible"),
-- 
2.43.0


From f099ed61384d9a633a2a960702330ca86812932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:01 +0000
Subject: [PATCH 21/21] fix: escape ']>' in text nodes

---
 src/writer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 6441fb4..a39819f 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -155,7 +155,9 @@ pub(crate) fn write_dom(doc: &Document, opt: &WriteOptions) -> String {
                     }
                     NodeType::Text => {
                         // `<` is escaped by the `xmlwriter`.
-                        let text = node.text().replace("]]>", "]]&gt;").replace('\r', "&#13;");
+                        // `]]>` is not allowed in a text and the `xmlparser` doesn't accept
+                        // a text that starts with `]>`.
+                        let text = node.text().replace("]>", "]&gt;").replace('\r', "&#13;");
                         xml.write_text(&text);
                     }
                 }
-- 
2.43.0

