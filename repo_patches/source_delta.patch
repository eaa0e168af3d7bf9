From 02c5ee84d48456e5c1d601037d19ea806f85e5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 01/19] fix: lexer drops the character that follows a negative
 number

After reading '-5' the lexer fell through to the final read_char() and
lost the next character, e.g. the ']' in [pos=-5].
---
 layout/src/gv/parser/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index aa894de..d5dc2e5 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -230,7 +230,8 @@ impl Lexer {
                             let res = self.read_number();
                             num.push('-');
                             num.push_str(&res[..]);
-                            tok = Token::Identifier(num);
+                            // The number is already consumed.
+                            return Token::Identifier(num);
                         } else {
                             tok = Token::Error(self.pos);
                         }
-- 
2.43.0


From dcdb0e1956993e269bac4391d344af58380f8ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 02/19] fix: comments leak characters into the token stream

A '//' comment ended at any control character (such as a tab) and the last
character of a comment at the end of the file became a token.
---
 layout/src/gv/parser/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index d5dc2e5..809ebc0 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -118,6 +118,8 @@ impl Lexer {
                 }
                 prev = self.ch;
             }
+            // The comment ends at the end of the file.
+            self.read_char();
             return changed;
         }
 
@@ -125,11 +127,13 @@ impl Lexer {
             while self.has_next() {
                 changed = true;
                 self.read_char();
-                if self.ch.is_ascii_control() {
+                if self.ch == '\n' {
                     self.read_char();
                     return changed;
                 }
             }
+            // The comment ends at the end of the file.
+            self.read_char();
         }
         changed
     }
-- 
2.43.0


From 2ffc428ac917093b978865668e2c298843fec42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 03/19] fix: lexer silently skips a lone slash

'a / b' was lexed like 'a b'; a slash that does not start a comment is not
a token and must be reported as an error.
---
 layout/src/gv/parser/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index 809ebc0..3c60991 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -101,7 +101,11 @@ impl Lexer {
 
     pub fn skip_comment(&mut self) -> bool {
         let mut changed = false;
-        if self.ch != '/' {
+        // A lone slash is not a comment.
+        let is_comment = self.ch == '/'
+            && self.has_next()
+            && (self.input[self.pos] == '*' || self.input[self.pos] == '/');
+        if !is_comment {
             return changed;
         }
         self.read_char();
-- 
2.43.0


From 907707a31697a4e1e816336099c7033a679fb5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 04/19] fix: record parser reads past the end of the label

An empty record label, or one that ends with '{', panicked with an index
out of bounds error.
---
 layout/src/gv/record.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/layout/src/gv/record.rs b/layout/src/gv/record.rs
index 97a6955..525538f 100644
--- a/layout/src/gv/record.rs
+++ b/layout/src/gv/record.rs
@@ -88,6 +88,11 @@ impl RecordParser {
     pub fn parse(&mut self) -> RecordDef {
         let mut frame = RecordParserFrame::new();
         loop {
+            // Are we at the end of the buffer?
+            if self.pos == self.input.len() {
+                return frame.finalize_record();
+            }
+
             // Read one char.
             let ch = self.input[self.pos];
 
@@ -119,10 +124,6 @@ impl RecordParser {
                     frame.label.push(ch);
                 }
             }
-            // Are we at the end of the buffer?
-            if self.pos == self.input.len() {
-                return frame.finalize_record();
-            }
         }
     }
 }
-- 
2.43.0


From 308f71300d7b747a74e8f4a135e823074d219878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 05/19] fix: panic when laying out an empty graph

---
 layout/src/topo/layout.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/layout/src/topo/layout.rs b/layout/src/topo/layout.rs
index 4f78248..c4fdbc4 100644
--- a/layout/src/topo/layout.rs
+++ b/layout/src/topo/layout.rs
@@ -143,6 +143,10 @@ impl VisualGraph {
         disable_layout: bool,
         rb: &mut dyn RenderBackend,
     ) {
+        // There is nothing to place or draw in an empty graph.
+        if self.num_nodes() == 0 {
+            return;
+        }
         self.lower(disable_opt);
         Placer::new(self).layout(disable_layout);
         self.render(debug_mode, rb);
-- 
2.43.0


From 48a7bedde0aa739e5d9f5046881608fb3ef958ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 06/19] fix: chained edges use the port of the first node for
 every segment

In 'a:x -> b:y -> c' the second edge starts at b:y, not at b:x.
---
 layout/src/gv/builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/builder.rs b/layout/src/gv/builder.rs
index 95d7494..d3690e6 100644
--- a/layout/src/gv/builder.rs
+++ b/layout/src/gv/builder.rs
@@ -108,6 +108,7 @@ impl GraphBuilder {
         self.init_node_with_name(&e.from.name, false);
 
         let mut prev = &e.from.name;
+        let mut prev_port = &e.from.port;
         for dest in &e.to {
             let curr = &dest.0.name;
             self.init_node_with_name(curr, false);
@@ -120,11 +121,12 @@ impl GraphBuilder {
                 to: curr.clone(),
                 props: prop_list,
                 is_directed: has_arrow,
-                from_port: e.from.port.clone(),
+                from_port: prev_port.clone(),
                 to_port: dest.0.port.clone(),
             };
             self.edges.push(edge);
             prev = curr;
+            prev_port = &dest.0.port;
         }
         self.edge_attr.pop();
     }
-- 
2.43.0


From 6fd2147af4618e7efae49f9bc432b79912a3f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 07/19] fix: re-declaring a node overwrites it with the default
 attributes

In 'a [color=red]; node [color=blue]; a [shape=box];' the node is red. The
defaults only apply to nodes that are created after the 'node' statement.
---
 layout/src/gv/builder.rs | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/layout/src/gv/builder.rs b/layout/src/gv/builder.rs
index d3690e6..ffc15a1 100644
--- a/layout/src/gv/builder.rs
+++ b/layout/src/gv/builder.rs
@@ -105,13 +105,13 @@ impl GraphBuilder {
             self.edge_attr.insert(&att.0, &att.1);
         }
 
-        self.init_node_with_name(&e.from.name, false);
+        self.init_node_with_name(&e.from.name);
 
         let mut prev = &e.from.name;
         let mut prev_port = &e.from.port;
         for dest in &e.to {
             let curr = &dest.0.name;
-            self.init_node_with_name(curr, false);
+            self.init_node_with_name(curr);
 
             let has_arrow = matches!(dest.1, ast::ArrowKind::Arrow);
             let prop_list = self.edge_attr.flatten();
@@ -131,33 +131,26 @@ impl GraphBuilder {
         self.edge_attr.pop();
     }
 
-    // If \p overwrite is set then we are declaring a node. This means that
-    // we need to update the properties that already exist.
-    fn init_node_with_name(&mut self, name: &str, overwrite: bool) {
-        let node_attr = self.node_attr.flatten();
-
-        if let Option::Some(prop_list) = self.nodes.get_mut(name) {
-            if !overwrite {
-                return;
-            }
-            for p in node_attr {
-                prop_list.insert(p.0, p.1);
-            }
-        } else {
-            self.node_order.push(name.to_string());
-            self.nodes.insert(name.to_string(), node_attr);
+    // Create the node when it is mentioned for the first time. The default
+    // attributes of the scope only apply when the node is created.
+    fn init_node_with_name(&mut self, name: &str) {
+        if self.nodes.contains_key(name) {
+            return;
         }
+        let node_attr = self.node_attr.flatten();
+        self.node_order.push(name.to_string());
+        self.nodes.insert(name.to_string(), node_attr);
     }
 
     fn visit_node(&mut self, n: &ast::NodeStmt) {
-        self.node_attr.push();
+        self.init_node_with_name(&n.id.name);
 
-        for att in n.list.iter() {
-            self.node_attr.insert(&att.0, &att.1);
+        // Update the properties that are listed in the declaration.
+        if let Option::Some(prop_list) = self.nodes.get_mut(&n.id.name) {
+            for att in n.list.iter() {
+                prop_list.insert(att.0.clone(), att.1.clone());
+            }
         }
-
-        self.init_node_with_name(&n.id.name, true);
-        self.node_attr.pop();
     }
 
     fn visit_att(&mut self, att: &ast::AttrStmt) {
-- 
2.43.0


From 514b2c06265fac2f9266958269ef5b5b5a1b6b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 08/19] fix: the reachability scan takes exponential time

The search unmarked nodes when it left them and enumerated all of the paths
in the graph. The layout of layered graphs with a few dozen nodes hung.
---
 layout/src/adt/dag.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/layout/src/adt/dag.rs b/layout/src/adt/dag.rs
index 9766483..dd34fb0 100644
--- a/layout/src/adt/dag.rs
+++ b/layout/src/adt/dag.rs
@@ -217,12 +217,12 @@ impl DAG {
             return true;
         }
 
-        // Don't step into a cycle.
+        // Don't step into nodes that were already visited.
         if visited[from.idx] {
             return false;
         }
 
-        // Push to the dfs stack.
+        // Mark as visited. Nodes stay marked, to visit each one only once.
         visited[from.idx] = true;
 
         let from_node = &self.nodes[from.idx];
@@ -232,8 +232,6 @@ impl DAG {
             }
         }
 
-        // Pop from the dfs stack.
-        visited[from.idx] = false;
         false
     }
 
-- 
2.43.0


From 930ffcf2c5c701a91ef583c7387bba72fd2c540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 09/19] fix: vertical segments intersect boxes above and below
 them

---
 layout/src/core/geometry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/layout/src/core/geometry.rs b/layout/src/core/geometry.rs
index 969f440..d03656f 100644
--- a/layout/src/core/geometry.rs
+++ b/layout/src/core/geometry.rs
@@ -489,7 +489,11 @@ pub fn segment_rect_intersection(
 
     // Check the case of vertical segment:
     if seg.0.x == seg.1.x {
-        return seg.1.x >= rect.0.x && seg.1.x <= rect.1.x;
+        let above = seg.0.y < rect.0.y && seg.1.y < rect.0.y;
+        let below = seg.0.y > rect.1.y && seg.1.y > rect.1.y;
+        return seg.1.x >= rect.0.x
+            && seg.1.x <= rect.1.x
+            && !(above || below);
     }
 
     // Check if the lives are outside of the x range.
-- 
2.43.0


From 209929aaeb4cd4162b4636bd3a5325a6540e68e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 10/19] fix: panic when a connector is placed on top of its
 neighbor

The pass that moves connectors away from edges may place two consecutive
connectors at the same point, and the edge between them has no direction.
---
 layout/src/core/geometry.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/layout/src/core/geometry.rs b/layout/src/core/geometry.rs
index d03656f..5d36a50 100644
--- a/layout/src/core/geometry.rs
+++ b/layout/src/core/geometry.rs
@@ -237,8 +237,20 @@ pub fn get_passthrough_path_invisible(
     //                         v
     //                          B (to)
 
-    let ar = center.sub(from);
-    let rb = to.sub(center);
+    let mut ar = center.sub(from);
+    let mut rb = to.sub(center);
+
+    // The connector may be placed on top of one of its neighbors. There is no
+    // direction to follow there, so use the direction of the other side.
+    if center == from {
+        ar = rb;
+    }
+    if center == to {
+        rb = ar;
+    }
+    if ar == Point::zero() {
+        return (center, center);
+    }
 
     let a_outgoing_edge = normalize_scale_vector(ar.neg(), force);
     let b_outgoing_edge = normalize_scale_vector(rb.neg(), force);
-- 
2.43.0


From 5d4c0746db6d9e9f33c2148b56bd0309fd79d212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 11/19] fix: integer overflow when drawing text with a huge
 font

---
 layout/src/backends/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index a357341..8a4b11c 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -216,7 +216,7 @@ impl RenderBackend for SVGWriter {
 
         let mut content = String::new();
         let cnt = 1 + text.lines().count();
-        let size_y = (cnt * look.font_size) as f64;
+        let size_y = cnt as f64 * look.font_size as f64;
         for line in text.lines() {
             content.push_str(&format!("<tspan x = \"{}\" dy=\"1.0em\">", xy.x));
             content.push_str(&escape_string(line));
-- 
2.43.0


From 5c7c42cce1026fbd8b3451ec552e8963a6eb25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 12/19] fix: save_to_file ignores write errors

The function returned Ok for files that were not written (full disk).
---
 layout/src/core/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/core/utils.rs b/layout/src/core/utils.rs
index f62dd64..4f16e9d 100644
--- a/layout/src/core/utils.rs
+++ b/layout/src/core/utils.rs
@@ -7,7 +7,7 @@ use std::io::{Error, Write};
 
 pub fn save_to_file(filename: &str, content: &str) -> Result<(), Error> {
     let f = File::create(filename)?;
-    let _ = write!(&f, "{}", content);
+    write!(&f, "{}", content)?;
     #[cfg(feature = "log")]
     log::info!("Wrote {}", filename);
     Result::Ok(())
-- 
2.43.0


From 0c1e5440d0b937b7610a9f82a81f478775a917ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 13/19] fix: straightened edges overlap their neighbors in the
 row

The pass only checked that the center of the connector is between the
neighbors. The box could cover the center of the next connector, and the
layout panicked with 'loc.x >= leftmost'.
---
 layout/src/topo/placer/edge_fixer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index f02161c..c77145e 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -2,7 +2,7 @@
 
 use super::EPSILON;
 use crate::adt::dag::NodeHandle;
-use crate::core::geometry::{in_range, segment_rect_intersection, Point};
+use crate::core::geometry::{segment_rect_intersection, Point};
 use crate::topo::layout::VisualGraph;
 use crate::topo::placer::simple::align_to_left;
 
@@ -89,7 +89,10 @@ pub fn straighten_edge(vg: &mut VisualGraph) -> usize {
         let new_pos = p1.add(p2).scale(0.5);
 
         let bounds = compute_bounds_for_node(vg, elem);
-        if in_range(bounds, new_pos.x) {
+        let mut pos = vg.pos(elem);
+        pos.set_x(new_pos.x);
+        // Don't overlap the neighbors in the row.
+        if pos.in_x_range(bounds, true) {
             vg.pos_mut(elem).set_x(new_pos.x);
             cnt += 1;
         }
-- 
2.43.0


From 449196e9db9a1acb755d2fc0fb958a9eb56ed195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 14/19] fix: rounding errors make adjacent boxes overlap

The scheduler placed the boxes of a row side by side with no gap, and a
rounding error of one bit was enough to trigger the 'Boxes must not
intersect' assertion. Leave the same gap that the initial placement uses.
---
 layout/src/topo/placer/bk.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/layout/src/topo/placer/bk.rs b/layout/src/topo/placer/bk.rs
index e4e82d0..9509bc7 100644
--- a/layout/src/topo/placer/bk.rs
+++ b/layout/src/topo/placer/bk.rs
@@ -7,6 +7,7 @@ use crate::topo::layout::VisualGraph;
 use std::collections::HashSet;
 
 use super::simple;
+use super::EPSILON;
 
 #[derive(Debug, Clone, Copy)]
 enum OrderLR {
@@ -179,9 +180,9 @@ impl<'a> Scheduler<'a> {
             };
 
             if self.order.is_left_to_right() {
-                last_offset_x = last_offset_x.max(last + offset);
+                last_offset_x = last_offset_x.max(last + offset + EPSILON);
             } else {
-                last_offset_x = last_offset_x.min(last - offset);
+                last_offset_x = last_offset_x.min(last - offset - EPSILON);
             }
         }
         last_offset_x
-- 
2.43.0


From 62c17372d468e5c964c3810e6486fd0865485126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 15/19] Add read-only hooks for verification tools (cfg
 verif_hooks)

---
 layout/src/topo/layout.rs     | 18 +++++++++++++
 layout/src/topo/placer/bk.rs  | 51 +++++++++++++++++++++++++++++++++++
 layout/src/topo/placer/mod.rs |  7 +++++
 3 files changed, 76 insertions(+)

diff --git a/layout/src/topo/layout.rs b/layout/src/topo/layout.rs
index c4fdbc4..4d6ef21 100644
--- a/layout/src/topo/layout.rs
+++ b/layout/src/topo/layout.rs
@@ -315,3 +315,21 @@ impl VisualGraph {
         self.self_edges.clear();
     }
 }
+
+// Read access for verification tools (enabled with --cfg verif_hooks).
+#[allow(unexpected_cfgs)]
+mod verif_hooks {
+    #[cfg(verif_hooks)]
+    impl super::VisualGraph {
+        pub fn verif_edges(
+            &self,
+        ) -> &Vec<(super::Arrow, Vec<super::NodeHandle>)> {
+            &self.edges
+        }
+        pub fn verif_self_edges(
+            &self,
+        ) -> &Vec<(super::Arrow, super::NodeHandle)> {
+            &self.self_edges
+        }
+    }
+}
diff --git a/layout/src/topo/placer/bk.rs b/layout/src/topo/placer/bk.rs
index 9509bc7..44404a0 100644
--- a/layout/src/topo/placer/bk.rs
+++ b/layout/src/topo/placer/bk.rs
@@ -525,3 +525,54 @@ fn test_extract_verticals() {
     assert_eq!(verticals[1][0].get_index(), 4);
     assert_eq!(verticals[1][1].get_index(), 5);
 }
+
+// Access for verification tools (enabled with --cfg verif_hooks).
+#[allow(unexpected_cfgs)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    #[cfg(verif_hooks)]
+    pub type Alignment = (
+        Vec<Option<super::NodeHandle>>,
+        Vec<Option<super::NodeHandle>>,
+        Vec<Vec<super::NodeHandle>>,
+    );
+
+    /// \returns the alignment (above, below) and the verticals of \p vg.
+    #[cfg(verif_hooks)]
+    pub fn alignment(
+        vg: &mut super::VisualGraph,
+        left_to_right: bool,
+    ) -> Alignment {
+        let order = if left_to_right {
+            super::OrderLR::LeftToRight
+        } else {
+            super::OrderLR::RightToLeft
+        };
+        let mut info = super::BK::new(vg).compute_alignment(order);
+        let verticals = info.get_verticals();
+        (info.above, info.below, verticals)
+    }
+
+    /// \returns the x coordinates and the number of scheduled nodes per row.
+    #[cfg(verif_hooks)]
+    pub fn schedule(
+        vg: &super::VisualGraph,
+        verticals: Vec<Vec<super::NodeHandle>>,
+        left_to_right: bool,
+    ) -> (Vec<f64>, Vec<usize>) {
+        let order = if left_to_right {
+            super::OrderLR::LeftToRight
+        } else {
+            super::OrderLR::RightToLeft
+        };
+        let mut sched = super::Scheduler::new(vg, verticals, order);
+        sched.schedule();
+        (sched.x_coordinates, sched.sched_idx)
+    }
+
+    /// Run the initial row placement.
+    #[cfg(verif_hooks)]
+    pub fn initial_placement(vg: &mut super::VisualGraph) {
+        super::simple::do_it(vg);
+    }
+}
diff --git a/layout/src/topo/placer/mod.rs b/layout/src/topo/placer/mod.rs
index b280dfc..42a94ec 100644
--- a/layout/src/topo/placer/mod.rs
+++ b/layout/src/topo/placer/mod.rs
@@ -36,3 +36,10 @@ mod verifier;
 
 pub mod place;
 pub use place::Placer;
+
+#[allow(unexpected_cfgs)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    #[cfg(verif_hooks)]
+    pub use super::bk::verif_hooks::*;
+}
-- 
2.43.0


From 7a80aa2b69d0d59953996a139c8a8ddcf2ceb90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 16/19] fix: moved labels have a transposed size in
 left-to-right graphs

---
 layout/src/topo/placer/move_between_rows.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/layout/src/topo/placer/move_between_rows.rs b/layout/src/topo/placer/move_between_rows.rs
index 9f062cb..9375981 100644
--- a/layout/src/topo/placer/move_between_rows.rs
+++ b/layout/src/topo/placer/move_between_rows.rs
@@ -17,6 +17,21 @@ fn get_row_width(vg: &mut VisualGraph, idx: usize) -> f64 {
     sum
 }
 
+/// Update the size of the connector \p node to fit its label.
+fn resize_connector(vg: &mut VisualGraph, node: NodeHandle) {
+    // Left-to-right graphs are placed while they are transposed, but labels are
+    // always written from left to right.
+    let transposed = !vg.orientation().is_top_to_bottom();
+    let elem = vg.element_mut(node);
+    if transposed {
+        elem.transpose();
+    }
+    elem.resize();
+    if transposed {
+        elem.transpose();
+    }
+}
+
 /// Move the node label from curr to pred. Pred must have an empty label.
 /// Return True if it was possible to move the labels.
 fn move_label(
@@ -43,8 +58,8 @@ fn move_label(
         }
         vg.element_mut(pred).shape = ShapeKind::Connector(txt);
         vg.element_mut(curr).shape = ShapeKind::Connector(None);
-        vg.element_mut(pred).resize();
-        vg.element_mut(curr).resize();
+        resize_connector(vg, pred);
+        resize_connector(vg, curr);
         return true;
     }
     false
-- 
2.43.0


From 6c18d933a05252cc0862f664e6071e3a023e39f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 17/19] fix: the properties of records are not drawn

---
 layout/src/std_shapes/render.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layout/src/std_shapes/render.rs b/layout/src/std_shapes/render.rs
index e574813..2e98c43 100644
--- a/layout/src/std_shapes/render.rs
+++ b/layout/src/std_shapes/render.rs
@@ -129,6 +129,7 @@ fn render_record(
     loc: Point,
     size: Point,
     look: &StyleAttr,
+    properties: Option<String>,
     canvas: &mut dyn RenderBackend,
 ) {
     struct Renderer<'a> {
@@ -182,7 +183,7 @@ fn render_record(
         Point::new(loc.x - size.x / 2., loc.y - size.y / 2.),
         Point::new(size.x, size.y),
         &look,
-        Option::None,
+        properties,
         Option::None,
     );
 }
@@ -296,6 +297,7 @@ impl Renderable for Element {
                     self.pos.center(),
                     self.pos.size(false),
                     &self.look,
+                    self.properties.clone(),
                     canvas,
                 );
             }
-- 
2.43.0


From 84651749bfe9b200a4d54f62792f8bf48b803f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 18/19] fix: nested record fields are smaller than their text

---
 layout/src/std_shapes/render.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/std_shapes/render.rs b/layout/src/std_shapes/render.rs
index 2e98c43..9416854 100644
--- a/layout/src/std_shapes/render.rs
+++ b/layout/src/std_shapes/render.rs
@@ -219,7 +219,7 @@ fn visit_record(
             // Figure out the recursive size of each element, and the largest
             // element.
             for elem in arr {
-                let sz = get_record_size(elem, dir, look.font_size);
+                let sz = get_record_size(elem, dir.flip(), look.font_size);
                 sizes.push(sz);
                 sum = Point::new(sum.x + sz.x, sum.y + sz.y);
                 mx = Point::new(mx.x.max(sz.x), mx.y.max(sz.y));
-- 
2.43.0


From 7c05998c08dcdab7ed4dcc4c92d2035c07a9f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 19/19] fix: labels that move to another row lose their style

---
 layout/src/topo/placer/move_between_rows.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/layout/src/topo/placer/move_between_rows.rs b/layout/src/topo/placer/move_between_rows.rs
index 9375981..2b24eff 100644
--- a/layout/src/topo/placer/move_between_rows.rs
+++ b/layout/src/topo/placer/move_between_rows.rs
@@ -56,6 +56,8 @@ fn move_label(
         if txt.is_none() {
             return false;
         }
+        // The label keeps its style.
+        vg.element_mut(pred).look = vg.element(curr).look.clone();
         vg.element_mut(pred).shape = ShapeKind::Connector(txt);
         vg.element_mut(curr).shape = ShapeKind::Connector(None);
         resize_connector(vg, pred);
-- 
2.43.0

