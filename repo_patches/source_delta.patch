From d179a2ed645e3be1d0dfa5494c7344c22a0ec728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:30:35 +0000
Subject: [PATCH 01/75] fix: draw generated ids atomically

---
 docx-core/src/documents/bookmark_id.rs                  | 4 +---
 docx-core/src/documents/footnote_id.rs                  | 4 +---
 docx-core/src/documents/history_id.rs                   | 3 +--
 docx-core/src/documents/hyperlink_id.rs                 | 4 +---
 docx-core/src/documents/paragraph_property_change_id.rs | 3 +--
 docx-core/src/documents/pic_id.rs                       | 4 +---
 docx-core/src/documents/toc_key.rs                      | 3 +--
 7 files changed, 7 insertions(+), 18 deletions(-)

diff --git a/docx-core/src/documents/bookmark_id.rs b/docx-core/src/documents/bookmark_id.rs
index d418935..900eb06 100644
--- a/docx-core/src/documents/bookmark_id.rs
+++ b/docx-core/src/documents/bookmark_id.rs
@@ -7,9 +7,7 @@ static BOOKMARK_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_bookmark_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = BOOKMARK_ID.load(Ordering::Relaxed);
-    BOOKMARK_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    BOOKMARK_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(not(test))]
diff --git a/docx-core/src/documents/footnote_id.rs b/docx-core/src/documents/footnote_id.rs
index f947529..f9ae56a 100644
--- a/docx-core/src/documents/footnote_id.rs
+++ b/docx-core/src/documents/footnote_id.rs
@@ -7,9 +7,7 @@ static FOOTNOTE_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_footnote_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = FOOTNOTE_ID.load(Ordering::Relaxed);
-    FOOTNOTE_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    FOOTNOTE_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/history_id.rs b/docx-core/src/documents/history_id.rs
index 77f1be4..8b6ab2f 100644
--- a/docx-core/src/documents/history_id.rs
+++ b/docx-core/src/documents/history_id.rs
@@ -8,8 +8,7 @@ pub trait HistoryId {
     fn generate(&self) -> String {
         use std::sync::atomic::Ordering;
 
-        let id = HISTORY_ID.load(Ordering::Relaxed);
-        HISTORY_ID.store(id + 1, Ordering::Relaxed);
+        let id = HISTORY_ID.fetch_add(1, Ordering::Relaxed);
         format!("{id}")
     }
 }
diff --git a/docx-core/src/documents/hyperlink_id.rs b/docx-core/src/documents/hyperlink_id.rs
index d972142..4a7184a 100644
--- a/docx-core/src/documents/hyperlink_id.rs
+++ b/docx-core/src/documents/hyperlink_id.rs
@@ -7,9 +7,7 @@ static HYPERLINK_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_hyperlink_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = HYPERLINK_ID.load(Ordering::Relaxed);
-    HYPERLINK_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    HYPERLINK_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/paragraph_property_change_id.rs b/docx-core/src/documents/paragraph_property_change_id.rs
index bb35284..7624bc6 100644
--- a/docx-core/src/documents/paragraph_property_change_id.rs
+++ b/docx-core/src/documents/paragraph_property_change_id.rs
@@ -8,8 +8,7 @@ pub trait ParagraphPropertyChangeId {
     fn generate(&self) -> String {
         use std::sync::atomic::Ordering;
 
-        let id = HISTORY_ID.load(Ordering::Relaxed);
-        HISTORY_ID.store(id + 1, Ordering::Relaxed);
+        let id = HISTORY_ID.fetch_add(1, Ordering::Relaxed);
         format!("{id}")
     }
 }
diff --git a/docx-core/src/documents/pic_id.rs b/docx-core/src/documents/pic_id.rs
index b9939aa..3fd5f91 100644
--- a/docx-core/src/documents/pic_id.rs
+++ b/docx-core/src/documents/pic_id.rs
@@ -7,9 +7,7 @@ static PIC_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_pic_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = PIC_ID.load(Ordering::Relaxed);
-    PIC_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    PIC_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/toc_key.rs b/docx-core/src/documents/toc_key.rs
index 6de125f..27d62a5 100644
--- a/docx-core/src/documents/toc_key.rs
+++ b/docx-core/src/documents/toc_key.rs
@@ -8,8 +8,7 @@ pub trait TocKeyGenerator {
     fn generate() -> String {
         use std::sync::atomic::Ordering;
 
-        let id = TOC_KEY.load(Ordering::Relaxed);
-        TOC_KEY.store(id + 1, Ordering::Relaxed);
+        let id = TOC_KEY.fetch_add(1, Ordering::Relaxed);
         format!("_Toc{id:08}")
     }
 }
-- 
2.43.0


From aea7cadb20d51a898958efd905f106a30b898638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:33:38 +0000
Subject: [PATCH 02/75] fix: collect comments and hyperlinks from every
 container

Comments starting in tracked changes, content controls, sections or runs and
links in content controls or sections were left out of the package. Comments
with several paragraphs were written several times, and the order of link
relationships depended on hash iteration.
---
 docx-core/src/documents/document_tree.rs |  45 +-
 docx-core/src/documents/mod.rs           | 689 ++++-------------------
 2 files changed, 139 insertions(+), 595 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index e1ac0c5..8cf7e98 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -5,10 +5,11 @@
 //! dependency collectors complete when new package metadata is added.
 
 use crate::{
-    Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer, FooterChild, Header,
-    HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild, MoveTo, MoveToChild,
-    Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild, StructuredDataTag,
-    StructuredDataTagChild, Table, TableCellContent, TableChild, TableOfContents, TableRowChild,
+    CommentRangeStart, Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer,
+    FooterChild, Header, HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild,
+    MoveTo, MoveToChild, Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild,
+    StructuredDataTag, StructuredDataTagChild, Table, TableCellContent, TableChild,
+    TableOfContents, TableRowChild,
 };
 
 /// Receives package-relevant nodes while the document tree is traversed.
@@ -29,6 +30,13 @@ pub(crate) trait DocumentTreeVisitor {
 
     /// Visits a footnote reference stored in a run.
     fn visit_footnote_reference(&mut self, _reference: &crate::FootnoteReference) {}
+
+    /// Visits a hyperlink before its children are traversed.
+    fn visit_hyperlink(&mut self, _link: &mut Hyperlink) {}
+
+    /// Visits the start of a commented range. The comment itself belongs to
+    /// the comments part, so its content is not traversed.
+    fn visit_comment_start(&mut self, _comment: &mut CommentRangeStart) {}
 }
 
 /// Traverses the main document body without crossing into header/footer parts.
@@ -70,9 +78,9 @@ fn visit_document_child(child: &mut DocumentChild, visitor: &mut impl DocumentTr
         DocumentChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
         DocumentChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
         DocumentChild::Section(section) => visit_section(section, visitor),
+        DocumentChild::CommentStart(comment) => visitor.visit_comment_start(comment),
         DocumentChild::BookmarkStart(_)
         | DocumentChild::BookmarkEnd(_)
-        | DocumentChild::CommentStart(_)
         | DocumentChild::CommentEnd(_) => {}
     }
 }
@@ -84,9 +92,9 @@ fn visit_section(section: &mut Section, visitor: &mut impl DocumentTreeVisitor)
             SectionChild::Table(table) => visit_table(table, visitor),
             SectionChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
             SectionChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
+            SectionChild::CommentStart(comment) => visitor.visit_comment_start(comment),
             SectionChild::BookmarkStart(_)
             | SectionChild::BookmarkEnd(_)
-            | SectionChild::CommentStart(_)
             | SectionChild::CommentEnd(_) => {}
         }
     }
@@ -131,9 +139,9 @@ fn visit_structured_data_tag(tag: &mut StructuredDataTag, visitor: &mut impl Doc
             StructuredDataTagChild::StructuredDataTag(tag) => {
                 visit_structured_data_tag(tag, visitor)
             }
+            StructuredDataTagChild::CommentStart(comment) => visitor.visit_comment_start(comment),
             StructuredDataTagChild::BookmarkStart(_)
             | StructuredDataTagChild::BookmarkEnd(_)
-            | StructuredDataTagChild::CommentStart(_)
             | StructuredDataTagChild::CommentEnd(_) => {}
         }
     }
@@ -157,9 +165,9 @@ fn visit_paragraph_children(
             ParagraphChild::MoveTo(moved) => visit_move_to(moved, visitor),
             ParagraphChild::Hyperlink(link) => visit_hyperlink(link, visitor),
             ParagraphChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
+            ParagraphChild::CommentStart(comment) => visitor.visit_comment_start(comment),
             ParagraphChild::BookmarkStart(_)
             | ParagraphChild::BookmarkEnd(_)
-            | ParagraphChild::CommentStart(_)
             | ParagraphChild::CommentEnd(_)
             | ParagraphChild::PageNum(_)
             | ParagraphChild::NumPages(_) => {}
@@ -168,6 +176,7 @@ fn visit_paragraph_children(
 }
 
 fn visit_hyperlink(link: &mut Hyperlink, visitor: &mut impl DocumentTreeVisitor) {
+    visitor.visit_hyperlink(link);
     visit_paragraph_children(&mut link.children, visitor);
 }
 
@@ -176,23 +185,28 @@ fn visit_insert(insert: &mut Insert, visitor: &mut impl DocumentTreeVisitor) {
         match child {
             InsertChild::Run(run) => visit_run(run, visitor),
             InsertChild::Delete(delete) => visit_delete(delete, visitor),
-            InsertChild::CommentStart(_) | InsertChild::CommentEnd(_) => {}
+            InsertChild::CommentStart(comment) => visitor.visit_comment_start(comment),
+            InsertChild::CommentEnd(_) => {}
         }
     }
 }
 
 fn visit_delete(delete: &mut Delete, visitor: &mut impl DocumentTreeVisitor) {
     for child in &mut delete.children {
-        if let DeleteChild::Run(run) = child {
-            visit_run(run, visitor);
+        match child {
+            DeleteChild::Run(run) => visit_run(run, visitor),
+            DeleteChild::CommentStart(comment) => visitor.visit_comment_start(comment),
+            DeleteChild::CommentEnd(_) => {}
         }
     }
 }
 
 fn visit_move_from(moved: &mut MoveFrom, visitor: &mut impl DocumentTreeVisitor) {
     for child in &mut moved.children {
-        if let MoveFromChild::Run(run) = child {
-            visit_run(run, visitor);
+        match child {
+            MoveFromChild::Run(run) => visit_run(run, visitor),
+            MoveFromChild::CommentStart(comment) => visitor.visit_comment_start(comment),
+            MoveFromChild::CommentEnd(_) => {}
         }
     }
 }
@@ -202,7 +216,8 @@ fn visit_move_to(moved: &mut MoveTo, visitor: &mut impl DocumentTreeVisitor) {
         match child {
             MoveToChild::Run(run) => visit_run(run, visitor),
             MoveToChild::Delete(delete) => visit_delete(delete, visitor),
-            MoveToChild::CommentStart(_) | MoveToChild::CommentEnd(_) => {}
+            MoveToChild::CommentStart(comment) => visitor.visit_comment_start(comment),
+            MoveToChild::CommentEnd(_) => {}
         }
     }
 }
@@ -217,6 +232,7 @@ fn visit_run(run: &mut Run, visitor: &mut impl DocumentTreeVisitor) {
                 }
             }
             RunChild::FootnoteReference(reference) => visitor.visit_footnote_reference(reference),
+            RunChild::CommentStart(comment) => visitor.visit_comment_start(comment),
             RunChild::Text(_)
             | RunChild::Sym(_)
             | RunChild::DeleteText(_)
@@ -225,7 +241,6 @@ fn visit_run(run: &mut Run, visitor: &mut impl DocumentTreeVisitor) {
             | RunChild::Break(_)
             | RunChild::CarriageReturn(_)
             | RunChild::Shape(_)
-            | RunChild::CommentStart(_)
             | RunChild::CommentEnd(_)
             | RunChild::FieldChar(_)
             | RunChild::InstrText(_)
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index cdae806..5ef5f23 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -85,6 +85,7 @@ pub use xml_docx::*;
 use base64::Engine;
 use serde::{ser, Serialize};
 
+use self::document_tree::{visit_document, DocumentTreeVisitor};
 use self::image_collector::{
     collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
     MediaRegistry,
@@ -917,297 +918,68 @@ impl Docx {
         refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
     }
 
-    fn insert_comment_to_map(
-        &self,
-        comment_map: &mut HashMap<usize, String>,
-        c: &CommentRangeStart,
-    ) {
-        let comment = c.get_comment_ref();
-        let comment_id = comment.id();
-        for child in &comment.children {
-            if let CommentChild::Paragraph(child) = child {
-                let para_id = child.id.clone();
-                comment_map.insert(comment_id, para_id);
-            }
-            // TODO: Support table in comment
-        }
-    }
-
     // Traverse and clone comments from document and add to comments node.
     fn update_dependencies(&mut self) {
-        let mut comments: Vec<Comment> = vec![];
-        let mut comments_extended: Vec<CommentExtended> = vec![];
-        let mut comment_map: HashMap<usize, String> = HashMap::new();
-
-        let mut hyperlink_map: HashMap<String, String> = HashMap::new();
-
-        for child in &self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &paragraph.children {
-                        if let ParagraphChild::CommentStart(c) = child {
-                            self.insert_comment_to_map(&mut comment_map, c);
-                        }
-                        if let ParagraphChild::Hyperlink(h) = child {
-                            if let HyperlinkData::External { rid, path } = &h.link {
-                                hyperlink_map.insert(rid.clone(), path.clone());
-                            }
-                            for child in &h.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    self.insert_comment_to_map(&mut comment_map, c);
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => {
-                    collect_comment_map_in_table(table, &mut comment_map, &mut hyperlink_map);
-                }
-                DocumentChild::TableOfContents(toc) => {
-                    for child in &toc.before_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            collect_comment_map_in_paragraph(
-                                paragraph,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_comment_map_in_table(
-                                table,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                    for child in &toc.after_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            collect_comment_map_in_paragraph(
-                                paragraph,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_comment_map_in_table(
-                                table,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                }
-                _ => {}
-            }
+        let mut collector = DependencyCollector::default();
+        visit_document(&mut self.document, &mut collector);
+        let DependencyCollector {
+            comments,
+            hyperlinks,
+            path_by_rid,
+            ..
+        } = collector;
+
+        // Collecting again must not repeat the links of an earlier collection.
+        self.document_rels
+            .hyperlinks
+            .retain(|(id, ..)| !path_by_rid.contains_key(id));
+        for (id, path) in hyperlinks {
+            self.document_rels
+                .hyperlinks
+                .push((id, path, "External".to_owned())); // Now support external only
         }
 
-        if comment_map.is_empty() {
-            for (id, path) in hyperlink_map {
-                self.document_rels
-                    .hyperlinks
-                    .push((id, path, "External".to_owned()));
-            }
+        if comments.is_empty() {
             return;
         }
 
-        for child in &self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &paragraph.children {
-                        if let ParagraphChild::CommentStart(c) = child {
-                            push_comment_and_comment_extended(
-                                &mut comments,
-                                &mut comments_extended,
-                                &comment_map,
-                                c,
-                            );
-                        }
-                        if let ParagraphChild::Hyperlink(h) = child {
-                            if let HyperlinkData::External { rid, path } = &h.link {
-                                hyperlink_map.insert(rid.clone(), path.clone());
-                            };
-                            for child in &h.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => {
-                    collect_dependencies_in_table(
-                        table,
-                        &mut comments,
-                        &mut comments_extended,
-                        &mut comment_map,
-                        &mut hyperlink_map,
-                    );
-                }
-                DocumentChild::TableOfContents(toc) => {
-                    // TODO:refine later
-                    for child in &toc.before_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            for child in &paragraph.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                                if let ParagraphChild::Hyperlink(h) = child {
-                                    if let HyperlinkData::External { rid, path } = &h.link {
-                                        hyperlink_map.insert(rid.clone(), path.clone());
-                                    };
-                                    for child in &h.children {
-                                        if let ParagraphChild::CommentStart(c) = child {
-                                            push_comment_and_comment_extended(
-                                                &mut comments,
-                                                &mut comments_extended,
-                                                &comment_map,
-                                                c,
-                                            );
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_dependencies_in_table(
-                                table,
-                                &mut comments,
-                                &mut comments_extended,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                    for child in &toc.after_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            for child in &paragraph.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                                if let ParagraphChild::Hyperlink(h) = child {
-                                    if let HyperlinkData::External { rid, path } = &h.link {
-                                        hyperlink_map.insert(rid.clone(), path.clone());
-                                    };
-                                    for child in &h.children {
-                                        if let ParagraphChild::CommentStart(c) = child {
-                                            push_comment_and_comment_extended(
-                                                &mut comments,
-                                                &mut comments_extended,
-                                                &comment_map,
-                                                c,
-                                            );
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_dependencies_in_table(
-                                table,
-                                &mut comments,
-                                &mut comments_extended,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                }
-                _ => {}
-            }
-        }
         // If this document has comments, set comments.xml to document_rels.
         // This is because comments.xml without comment cause an error on word online.
-        if !comments.is_empty() {
-            self.document_rels.has_comments = true;
-        }
+        self.document_rels.has_comments = true;
+
+        let comment_map: HashMap<usize, &str> = comments
+            .iter()
+            .filter_map(|comment| Some((comment.id(), last_para_id_in_comment(comment)?)))
+            .collect();
+        let comments_extended = comments
+            .iter()
+            .filter_map(|comment| {
+                let extended = CommentExtended::new(last_para_id_in_comment(comment)?);
+                let parent_para_id = comment
+                    .parent_comment_id
+                    .and_then(|parent| comment_map.get(&parent));
+                Some(match parent_para_id {
+                    Some(para_id) => extended.parent_paragraph_id(*para_id),
+                    None => extended,
+                })
+            })
+            .collect();
 
         self.comments_extended
             .add_comments_extended(comments_extended);
-
         self.comments.add_comments(comments);
-
-        for (id, d) in hyperlink_map {
-            self.document_rels
-                .hyperlinks
-                .push((id, d, "External".to_string())); // Now support external only
-        }
     }
 
     // Traverse and clone comments from document and add to comments node.
     // reader only
     pub(crate) fn store_comments(&mut self, comments: &[Comment]) {
-        let comments_by_id: HashMap<usize, &Comment> = comments
-            .iter()
-            .map(|comment| (comment.id(), comment))
-            .collect();
-        for child in &mut self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &mut paragraph.children {
-                        if let ParagraphChild::CommentStart(ref mut c) = child {
-                            let comment_id = c.get_id();
-                            if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                                let comment = Comment::clone(comment);
-                                c.as_mut().comment(comment);
-                            }
-                        }
-                        if let ParagraphChild::Insert(ref mut insert) = child {
-                            for child in &mut insert.children {
-                                if let InsertChild::CommentStart(ref mut c) = child {
-                                    let comment_id = c.get_id();
-                                    if let Some(comment) = comments_by_id.get(&comment_id).copied()
-                                    {
-                                        let comment = Comment::clone(comment);
-                                        c.as_mut().comment(comment);
-                                    }
-                                } else if let InsertChild::Delete(ref mut d) = child {
-                                    for child in &mut d.children {
-                                        if let DeleteChild::CommentStart(ref mut c) = child {
-                                            let comment_id = c.get_id();
-                                            if let Some(comment) =
-                                                comments_by_id.get(&comment_id).copied()
-                                            {
-                                                let comment = Comment::clone(comment);
-                                                c.as_mut().comment(comment);
-                                            }
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let ParagraphChild::Delete(ref mut delete) = child {
-                            for child in &mut delete.children {
-                                if let DeleteChild::CommentStart(ref mut c) = child {
-                                    let comment_id = c.get_id();
-                                    if let Some(comment) = comments_by_id.get(&comment_id).copied()
-                                    {
-                                        let comment = Comment::clone(comment);
-                                        c.as_mut().comment(comment);
-                                    }
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => store_comments_in_table(table, &comments_by_id),
-                _ => {}
-            }
-        }
+        let mut store = CommentStore {
+            comments_by_id: comments
+                .iter()
+                .map(|comment| (comment.id(), comment))
+                .collect(),
+        };
+        visit_document(&mut self.document, &mut store);
 
         if !comments.is_empty() {
             self.document_rels.has_comments = true;
@@ -1265,304 +1037,86 @@ impl Docx {
     }
 }
 
-fn collect_dependencies_in_paragraph(
-    paragraph: &Paragraph,
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for child in &paragraph.children {
-        if let ParagraphChild::CommentStart(c) = child {
-            push_comment_and_comment_extended(comments, comments_extended, comment_map, c);
-        }
-        if let ParagraphChild::Hyperlink(h) = child {
-            if let HyperlinkData::External { rid, path } = &h.link {
-                hyperlink_map.insert(rid.clone(), path.clone());
-            };
-            for child in &h.children {
-                if let ParagraphChild::CommentStart(c) = child {
-                    push_comment_and_comment_extended(comments, comments_extended, comment_map, c);
-                }
-            }
-        }
-    }
+/// Collects the comments and external links of the main document in the order
+/// in which they appear.
+///
+/// A comment is collected once per id. A link that reuses the relationship id
+/// of a link with another address is given an id of its own.
+#[derive(Default)]
+struct DependencyCollector {
+    comments: Vec<Comment>,
+    comment_ids: HashSet<usize>,
+    hyperlinks: Vec<(String, String)>,
+    path_by_rid: HashMap<String, String>,
 }
 
-fn collect_comment_map_in_paragraph(
-    paragraph: &Paragraph,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for child in &paragraph.children {
-        if let ParagraphChild::CommentStart(c) = child {
-            let comment = c.get_comment_ref();
-            let comment_id = comment.id();
-            for child in &comment.children {
-                if let CommentChild::Paragraph(child) = child {
-                    comment_map.insert(comment_id, child.id.clone());
-                }
-            }
-        }
-        if let ParagraphChild::Hyperlink(h) = child {
-            if let HyperlinkData::External { rid, path } = &h.link {
-                hyperlink_map.insert(rid.clone(), path.clone());
-            }
-            for child in &h.children {
-                if let ParagraphChild::CommentStart(c) = child {
-                    let comment = c.get_comment_ref();
-                    let comment_id = comment.id();
-                    for child in &comment.children {
-                        if let CommentChild::Paragraph(child) = child {
-                            comment_map.insert(comment_id, child.id.clone());
-                        }
-                    }
-                }
-            }
+impl DocumentTreeVisitor for DependencyCollector {
+    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+        if self.comment_ids.insert(start.get_id()) {
+            self.comments.push(start.get_comment_ref().clone());
         }
     }
-}
 
-fn collect_comment_map_in_table(
-    table: &Table,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for TableChild::TableRow(row) in &table.rows {
-        for TableRowChild::TableCell(cell) in &row.cells {
-            for content in &cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        collect_comment_map_in_paragraph(paragraph, comment_map, hyperlink_map);
-                    }
-                    TableCellContent::Table(table) => {
-                        collect_comment_map_in_table(table, comment_map, hyperlink_map)
-                    }
-                    TableCellContent::StructuredDataTag(tag) => {
-                        for child in &tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(t) => {
-                        for child in &t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                        for child in &t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                    }
-                }
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        let HyperlinkData::External { rid, path } = &mut link.link else {
+            return;
+        };
+        let preferred = rid.clone();
+        let mut suffix = 2;
+        while let Some(known) = self.path_by_rid.get(rid) {
+            if known == path {
+                return;
             }
+            *rid = format!("{preferred}_{suffix}");
+            suffix += 1;
         }
+        self.path_by_rid.insert(rid.clone(), path.clone());
+        self.hyperlinks.push((rid.clone(), path.clone()));
     }
 }
 
-fn collect_dependencies_in_table(
-    table: &Table,
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for TableChild::TableRow(row) in &table.rows {
-        for TableRowChild::TableCell(cell) in &row.cells {
-            for content in &cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        collect_dependencies_in_paragraph(
-                            paragraph,
-                            comments,
-                            comments_extended,
-                            comment_map,
-                            hyperlink_map,
-                        );
-                    }
-                    TableCellContent::Table(table) => collect_dependencies_in_table(
-                        table,
-                        comments,
-                        comments_extended,
-                        comment_map,
-                        hyperlink_map,
-                    ),
-                    TableCellContent::StructuredDataTag(tag) => {
-                        for child in &tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(t) => {
-                        for child in &t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-
-                        for child in &t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    }
+/// Attaches comments read from the comments part to their ranges.
+struct CommentStore<'a> {
+    comments_by_id: HashMap<usize, &'a Comment>,
 }
 
-fn store_comments_in_paragraph(
-    paragraph: &mut Paragraph,
-    comments_by_id: &HashMap<usize, &Comment>,
-) {
-    for child in &mut paragraph.children {
-        if let ParagraphChild::CommentStart(ref mut c) = child {
-            let comment_id = c.get_id();
-            if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                let comment = Comment::clone(comment);
-                c.as_mut().comment(comment);
-            }
-        }
-        if let ParagraphChild::Insert(ref mut insert) = child {
-            for child in &mut insert.children {
-                if let InsertChild::CommentStart(ref mut c) = child {
-                    let comment_id = c.get_id();
-                    if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                        let comment = Comment::clone(comment);
-                        c.as_mut().comment(comment);
-                    }
-                }
-            }
-        }
-        if let ParagraphChild::Delete(ref mut delete) = child {
-            for child in &mut delete.children {
-                if let DeleteChild::CommentStart(ref mut c) = child {
-                    let comment_id = c.get_id();
-                    if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                        let comment = Comment::clone(comment);
-                        c.as_mut().comment(comment);
-                    }
-                }
-            }
+impl DocumentTreeVisitor for CommentStore<'_> {
+    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+        if let Some(comment) = self.comments_by_id.get(&start.get_id()) {
+            start.comment(Comment::clone(comment));
         }
     }
 }
 
-fn store_comments_in_table(table: &mut Table, comments_by_id: &HashMap<usize, &Comment>) {
-    for TableChild::TableRow(row) in &mut table.rows {
-        for TableRowChild::TableCell(cell) in &mut row.cells {
-            for content in &mut cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        store_comments_in_paragraph(paragraph, comments_by_id)
-                    }
-                    TableCellContent::Table(ref mut table) => {
-                        store_comments_in_table(table, comments_by_id);
-                    }
-                    TableCellContent::StructuredDataTag(ref mut tag) => {
-                        for child in &mut tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(ref mut t) => {
-                        for child in &mut t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let TocContent::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-
-                        for child in &mut t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let TocContent::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    }
+/// Returns the id of the paragraph that stands for a comment in
+/// `commentsExtended.xml`, which is the last one of the comment.
+fn last_para_id_in_comment(comment: &Comment) -> Option<&str> {
+    comment.children.iter().rev().find_map(|child| match child {
+        CommentChild::Paragraph(paragraph) => Some(paragraph.id.as_str()),
+        CommentChild::Table(table) => last_para_id_in_table(table),
+    })
+}
+
+fn last_para_id_in_table(table: &Table) -> Option<&str> {
+    table
+        .rows
+        .iter()
+        .rev()
+        .find_map(|TableChild::TableRow(row)| {
+            row.cells
+                .iter()
+                .rev()
+                .find_map(|TableRowChild::TableCell(cell)| {
+                    cell.children
+                        .iter()
+                        .rev()
+                        .find_map(|content| match content {
+                            TableCellContent::Paragraph(paragraph) => Some(paragraph.id.as_str()),
+                            TableCellContent::Table(table) => last_para_id_in_table(table),
+                            _ => None,
+                        })
+                })
+        })
 }
 
 fn collect_para_ids_in_docx<'a>(docx: &'a Docx, counts: &mut HashMap<&'a str, usize>) {
@@ -2264,31 +1818,6 @@ fn next_unique_paragraph_id(used: &HashSet<String>) -> String {
         .expect("the paragraph ID space should not be exhausted")
 }
 
-fn push_comment_and_comment_extended(
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &HashMap<usize, String>,
-    c: &CommentRangeStart,
-) {
-    let comment = c.get_comment_ref();
-    for child in &comment.children {
-        if let CommentChild::Paragraph(child) = child {
-            let para_id = child.id.clone();
-            comments.push(comment.clone());
-            let comment_extended = CommentExtended::new(para_id);
-            if let Some(parent_comment_id) = comment.parent_comment_id {
-                if let Some(parent_para_id) = comment_map.get(&parent_comment_id) {
-                    comments_extended
-                        .push(comment_extended.parent_paragraph_id(parent_para_id.clone()));
-                }
-            } else {
-                comments_extended.push(comment_extended);
-            }
-        }
-        // TODO: Support table in comment
-    }
-}
-
 /// Populates an automatic TOC and bookmarks matching headings in place.
 ///
 /// `document_children[toc_index]` is the temporary placeholder installed by
-- 
2.43.0


From 364cb89d7815b227436a93dc33b3b92b8e8f311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:24 +0000
Subject: [PATCH 03/75] fix: write relationships for links and pictures outside
 the main document

Links in headers and footers and links and pictures in comments and footnotes
had no relationship in their part. Footnotes are now also collected once,
whether or not they were collected before building.
---
 docx-core/src/documents/document_tree.rs   |  29 ++++--
 docx-core/src/documents/footer_rels.rs     |  13 +++
 docx-core/src/documents/footnotes.rs       |   4 +-
 docx-core/src/documents/header_rels.rs     |  13 +++
 docx-core/src/documents/image_collector.rs | 100 +++++++++++++++++----
 docx-core/src/documents/mod.rs             |  84 +++++++++--------
 docx-core/src/documents/part_rels.rs       |  44 +++++++++
 docx-core/src/documents/xml_docx.rs        |   2 +
 docx-core/src/zipper/mod.rs                |  26 ++++++
 9 files changed, 251 insertions(+), 64 deletions(-)
 create mode 100644 docx-core/src/documents/part_rels.rs

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index 8cf7e98..3010273 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -5,11 +5,11 @@
 //! dependency collectors complete when new package metadata is added.
 
 use crate::{
-    CommentRangeStart, Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer,
-    FooterChild, Header, HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild,
-    MoveTo, MoveToChild, Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild,
-    StructuredDataTag, StructuredDataTagChild, Table, TableCellContent, TableChild,
-    TableOfContents, TableRowChild,
+    Comment, CommentChild, CommentRangeStart, Delete, DeleteChild, Document, DocumentChild,
+    DrawingData, Footer, FooterChild, Footnote, Header, HeaderChild, Hyperlink, Insert,
+    InsertChild, MoveFrom, MoveFromChild, MoveTo, MoveToChild, Paragraph, ParagraphChild, Pic, Run,
+    RunChild, Section, SectionChild, StructuredDataTag, StructuredDataTagChild, Table,
+    TableCellContent, TableChild, TableOfContents, TableRowChild,
 };
 
 /// Receives package-relevant nodes while the document tree is traversed.
@@ -29,7 +29,7 @@ pub(crate) trait DocumentTreeVisitor {
     fn visit_picture(&mut self, _picture: &mut Pic) {}
 
     /// Visits a footnote reference stored in a run.
-    fn visit_footnote_reference(&mut self, _reference: &crate::FootnoteReference) {}
+    fn visit_footnote_reference(&mut self, _reference: &mut crate::FootnoteReference) {}
 
     /// Visits a hyperlink before its children are traversed.
     fn visit_hyperlink(&mut self, _link: &mut Hyperlink) {}
@@ -71,6 +71,23 @@ pub(crate) fn visit_footer(footer: &mut Footer, visitor: &mut impl DocumentTreeV
     }
 }
 
+/// Traverses every package-relevant node of one comment.
+pub(crate) fn visit_comment(comment: &mut Comment, visitor: &mut impl DocumentTreeVisitor) {
+    for child in &mut comment.children {
+        match child {
+            CommentChild::Paragraph(paragraph) => visit_paragraph(paragraph, visitor),
+            CommentChild::Table(table) => visit_table(table, visitor),
+        }
+    }
+}
+
+/// Traverses every package-relevant node of one footnote.
+pub(crate) fn visit_footnote(footnote: &mut Footnote, visitor: &mut impl DocumentTreeVisitor) {
+    for paragraph in &mut footnote.content {
+        visit_paragraph(paragraph, visitor);
+    }
+}
+
 fn visit_document_child(child: &mut DocumentChild, visitor: &mut impl DocumentTreeVisitor) {
     match child {
         DocumentChild::Paragraph(paragraph) => visit_paragraph(paragraph, visitor),
diff --git a/docx-core/src/documents/footer_rels.rs b/docx-core/src/documents/footer_rels.rs
index 27a0b51..4072f5f 100644
--- a/docx-core/src/documents/footer_rels.rs
+++ b/docx-core/src/documents/footer_rels.rs
@@ -7,6 +7,7 @@ use std::io::Write;
 #[serde(rename_all = "camelCase")]
 pub struct FooterRels {
     pub images: Vec<(String, String)>,
+    pub hyperlinks: Vec<(String, String)>,
 }
 
 impl FooterRels {
@@ -22,6 +23,10 @@ impl FooterRels {
     pub(crate) fn set_images(&mut self, images: Vec<ImageIdAndPath>) {
         self.images = images;
     }
+
+    pub(crate) fn set_hyperlinks(&mut self, hyperlinks: Vec<(String, String)>) {
+        self.hyperlinks = hyperlinks;
+    }
 }
 
 impl BuildXML for FooterRels {
@@ -39,6 +44,14 @@ impl BuildXML for FooterRels {
                     path,
                 )
             })?
+            .apply_each(&self.hyperlinks, |(id, path), b| {
+                b.relationship_with_mode(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
+                    path,
+                    "External",
+                )
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/footnotes.rs b/docx-core/src/documents/footnotes.rs
index 5769a27..f4545c9 100644
--- a/docx-core/src/documents/footnotes.rs
+++ b/docx-core/src/documents/footnotes.rs
@@ -16,8 +16,8 @@ impl Footnotes {
         Self::default()
     }
 
-    pub(crate) fn add(&mut self, footnotes: Vec<Footnote>) {
-        self.footnotes.extend(footnotes)
+    pub(crate) fn set(&mut self, footnotes: Vec<Footnote>) {
+        self.footnotes = footnotes;
     }
 }
 
diff --git a/docx-core/src/documents/header_rels.rs b/docx-core/src/documents/header_rels.rs
index f718643..905befa 100644
--- a/docx-core/src/documents/header_rels.rs
+++ b/docx-core/src/documents/header_rels.rs
@@ -7,6 +7,7 @@ use std::io::Write;
 #[serde(rename_all = "camelCase")]
 pub struct HeaderRels {
     pub images: Vec<(String, String)>,
+    pub hyperlinks: Vec<(String, String)>,
 }
 
 impl HeaderRels {
@@ -22,6 +23,10 @@ impl HeaderRels {
     pub(crate) fn set_images(&mut self, images: Vec<ImageIdAndPath>) {
         self.images = images;
     }
+
+    pub(crate) fn set_hyperlinks(&mut self, hyperlinks: Vec<(String, String)>) {
+        self.hyperlinks = hyperlinks;
+    }
 }
 
 impl BuildXML for HeaderRels {
@@ -39,6 +44,14 @@ impl BuildXML for HeaderRels {
                     path,
                 )
             })?
+            .apply_each(&self.hyperlinks, |(id, path), b| {
+                b.relationship_with_mode(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
+                    path,
+                    "External",
+                )
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index a57ca5e..a843e20 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -6,9 +6,12 @@
 
 use std::collections::{HashMap, HashSet};
 
-use super::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
+use super::document_tree::{
+    visit_comment, visit_document, visit_footer, visit_footnote, visit_header, DocumentTreeVisitor,
+};
 use crate::{
-    Document, Footer, Footnote, FootnoteReference, Header, ImageIdAndBuf, ImageIdAndPath, Pic,
+    Comments, Document, Footer, Footnote, FootnoteReference, Footnotes, Header, Hyperlink,
+    HyperlinkData, ImageIdAndBuf, ImageIdAndPath, Pic,
 };
 
 /// Stores physical media once for the entire OPC package.
@@ -105,6 +108,8 @@ impl MediaRegistry {
 /// Data collected from one relationship scope during a tree walk.
 pub(crate) struct CollectedPart {
     pub(crate) relationships: Vec<ImageIdAndPath>,
+    /// External links, for parts other than the main document.
+    pub(crate) hyperlinks: Vec<(String, String)>,
     pub(crate) footnotes: Vec<Footnote>,
 }
 
@@ -122,7 +127,8 @@ struct PackagePartCollector<'a> {
     next_relationship_suffix_by_id: HashMap<String, usize>,
     /// Maps media to the owning relationship entry, avoiding another owned ID.
     relationships_by_media: HashMap<usize, usize>,
-    footnotes: Vec<Footnote>,
+    hyperlinks: Vec<(String, String)>,
+    footnotes: FootnoteCollector,
 }
 
 impl<'a> PackagePartCollector<'a> {
@@ -134,14 +140,16 @@ impl<'a> PackagePartCollector<'a> {
             relationship_ids: HashSet::new(),
             next_relationship_suffix_by_id: HashMap::new(),
             relationships_by_media: HashMap::new(),
-            footnotes: Vec::new(),
+            hyperlinks: Vec::new(),
+            footnotes: FootnoteCollector::default(),
         }
     }
 
     fn finish(self) -> CollectedPart {
         CollectedPart {
             relationships: self.relationships,
-            footnotes: self.footnotes,
+            hyperlinks: self.hyperlinks,
+            footnotes: self.footnotes.footnotes,
         }
     }
 
@@ -206,8 +214,51 @@ impl DocumentTreeVisitor for PackagePartCollector<'_> {
         self.relationships.push((relationship_id, target));
     }
 
-    fn visit_footnote_reference(&mut self, reference: &FootnoteReference) {
-        self.footnotes.push(reference.into());
+    fn visit_footnote_reference(&mut self, reference: &mut FootnoteReference) {
+        self.footnotes.visit_footnote_reference(reference);
+    }
+
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        // Links of the main document are collected with its comments.
+        if self.relationship_prefix.is_none() {
+            return;
+        }
+        let HyperlinkData::External { rid, path } = &mut link.link else {
+            return;
+        };
+        if self.relationship_ids.contains(rid)
+            && self
+                .hyperlinks
+                .iter()
+                .any(|(known, target)| known == rid && target == path)
+        {
+            return;
+        }
+        *rid = self.unique_relationship_id(rid);
+        self.relationship_ids.insert(rid.clone());
+        self.hyperlinks.push((rid.clone(), path.clone()));
+    }
+}
+
+/// Collects every footnote once, in the order of the references.
+///
+/// A reference that reuses the id of a different footnote is renumbered.
+#[derive(Default)]
+struct FootnoteCollector {
+    footnotes: Vec<Footnote>,
+    index_by_id: HashMap<usize, usize>,
+}
+
+impl DocumentTreeVisitor for FootnoteCollector {
+    fn visit_footnote_reference(&mut self, reference: &mut FootnoteReference) {
+        while let Some(index) = self.index_by_id.get(&reference.id) {
+            if self.footnotes[*index].content == reference.content {
+                return;
+            }
+            reference.id += 1;
+        }
+        self.index_by_id.insert(reference.id, self.footnotes.len());
+        self.footnotes.push((&*reference).into());
     }
 }
 
@@ -228,17 +279,6 @@ pub(crate) fn collect_document_part(
 /// [`collect_document_part`] so images and footnotes are normally gathered in
 /// one traversal.
 pub(crate) fn collect_document_footnotes(document: &mut Document) -> Vec<Footnote> {
-    #[derive(Default)]
-    struct FootnoteCollector {
-        footnotes: Vec<Footnote>,
-    }
-
-    impl DocumentTreeVisitor for FootnoteCollector {
-        fn visit_footnote_reference(&mut self, reference: &FootnoteReference) {
-            self.footnotes.push(reference.into());
-        }
-    }
-
     let mut collector = FootnoteCollector::default();
     visit_document(document, &mut collector);
     collector.footnotes
@@ -264,6 +304,30 @@ pub(crate) fn collect_footer_part(
     collector.finish()
 }
 
+/// Collects package data from the relationship scope of the comments part.
+pub(crate) fn collect_comments_part(
+    comments: &mut Comments,
+    registry: &mut MediaRegistry,
+) -> CollectedPart {
+    let mut collector = PackagePartCollector::new(registry, Some("comments"));
+    for comment in &mut comments.comments {
+        visit_comment(comment, &mut collector);
+    }
+    collector.finish()
+}
+
+/// Collects package data from the relationship scope of the footnotes part.
+pub(crate) fn collect_footnotes_part(
+    footnotes: &mut Footnotes,
+    registry: &mut MediaRegistry,
+) -> CollectedPart {
+    let mut collector = PackagePartCollector::new(registry, Some("footnotes"));
+    for footnote in &mut footnotes.footnotes {
+        visit_footnote(footnote, &mut collector);
+    }
+    collector.finish()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 5ef5f23..9b1c277 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -31,6 +31,7 @@ mod image_collector;
 mod numberings;
 mod paragraph_id;
 mod paragraph_property_change_id;
+mod part_rels;
 mod pic_id;
 mod preset_styles;
 mod rels;
@@ -87,9 +88,10 @@ use serde::{ser, Serialize};
 
 use self::document_tree::{visit_document, DocumentTreeVisitor};
 use self::image_collector::{
-    collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
-    MediaRegistry,
+    collect_comments_part, collect_document_footnotes, collect_document_part, collect_footer_part,
+    collect_footnotes_part, collect_header_part, CollectedPart, MediaRegistry,
 };
+use self::part_rels::PartRels;
 
 #[derive(Debug, Clone)]
 pub struct Image(pub Vec<u8>);
@@ -184,6 +186,19 @@ pub(crate) struct PackageMetadata {
     pub(crate) header_rels: Vec<(usize, HeaderRels)>,
     /// Non-empty footer relationships keyed by zero-based part index.
     pub(crate) footer_rels: Vec<(usize, FooterRels)>,
+    /// Relationships of the comments part, if it needs any.
+    pub(crate) comments_rels: Option<PartRels>,
+    /// Relationships of the footnotes part, if it needs any.
+    pub(crate) footnotes_rels: Option<PartRels>,
+}
+
+/// Returns the relationships of a comments or footnotes part that needs any.
+fn note_relationships(part: CollectedPart) -> Option<PartRels> {
+    let rels = PartRels {
+        images: part.relationships,
+        hyperlinks: part.hyperlinks,
+    };
+    (!rels.is_empty()).then_some(rels)
 }
 
 /// Expands sparse relationships only through the last part that needs them.
@@ -729,6 +744,8 @@ impl Docx {
 
         let header_rels = build_sparse_relationships(package.header_rels);
         let footer_rels = build_sparse_relationships(package.footer_rels);
+        let comments_rels = package.comments_rels.map(|rels| rels.build());
+        let footnotes_rels = package.footnotes_rels.map(|rels| rels.build());
 
         XMLDocx {
             content_type: self.content_type.build(),
@@ -737,6 +754,7 @@ impl Docx {
             styles: self.styles.build(),
             document: self.document.build(),
             comments: self.comments.build(),
+            comments_rels,
             document_rels: self.document_rels.build(),
             header_rels,
             footer_rels,
@@ -754,6 +772,7 @@ impl Docx {
             custom_item_rels,
             custom_item_props,
             footnotes: self.footnotes.build(),
+            footnotes_rels,
         }
     }
 
@@ -848,30 +867,17 @@ impl Docx {
 
         let mut media = MediaRegistry::default();
         let document_part = collect_document_part(&mut self.document, &mut media);
-        let header_images = self.collect_header_images(&mut media);
-        let footer_images = self.collect_footer_images(&mut media);
+        let header_rels = self.collect_header_rels(&mut media);
+        let footer_rels = self.collect_footer_rels(&mut media);
         self.document_rels.images = document_part.relationships;
 
-        let header_rels = header_images
-            .into_iter()
-            .map(|(index, images)| {
-                let mut rels = HeaderRels::new();
-                rels.set_images(images);
-                (index, rels)
-            })
-            .collect();
+        self.footnotes.set(document_part.footnotes);
+        let comments_rels =
+            note_relationships(collect_comments_part(&mut self.comments, &mut media));
+        let footnotes_rels =
+            note_relationships(collect_footnotes_part(&mut self.footnotes, &mut media));
 
-        let footer_rels = footer_images
-            .into_iter()
-            .map(|(index, images)| {
-                let mut rels = FooterRels::new();
-                rels.set_images(images);
-                (index, rels)
-            })
-            .collect();
-
-        if !document_part.footnotes.is_empty() {
-            self.footnotes.add(document_part.footnotes);
+        if !self.footnotes.footnotes.is_empty() {
             self.content_type = std::mem::take(&mut self.content_type).add_footnotes();
             self.document_rels.has_footnotes = true;
         }
@@ -894,6 +900,8 @@ impl Docx {
             media: media.into_media(),
             header_rels,
             footer_rels,
+            comments_rels,
+            footnotes_rels,
         }
     }
 
@@ -986,40 +994,40 @@ impl Docx {
         }
     }
 
-    /// Collects image relationships for every header in package order.
+    /// Collects the relationships of every header in package order.
     ///
     /// Each entry deliberately uses a separate relationship scope while all
     /// entries share the package-wide media registry. Relationship creation
     /// order matches the order used to render and write header parts.
-    fn collect_header_images(
-        &mut self,
-        media: &mut MediaRegistry,
-    ) -> Vec<(usize, Vec<ImageIdAndPath>)> {
+    fn collect_header_rels(&mut self, media: &mut MediaRegistry) -> Vec<(usize, HeaderRels)> {
         self.document
             .headers_mut()
             .enumerate()
             .filter_map(|(index, (_, header))| {
-                let relationships = collect_header_part(header, media).relationships;
-                (!relationships.is_empty()).then_some((index, relationships))
+                let part = collect_header_part(header, media);
+                let mut rels = HeaderRels::new();
+                rels.set_images(part.relationships);
+                rels.set_hyperlinks(part.hyperlinks);
+                (!rels.images.is_empty() || !rels.hyperlinks.is_empty()).then_some((index, rels))
             })
             .collect()
     }
 
-    /// Collects image relationships for every footer in package order.
+    /// Collects the relationships of every footer in package order.
     ///
     /// Relationship creation order matches the package writer. A shared
     /// registry prevents repeated footer and body images from being emitted as
     /// separate physical media files.
-    fn collect_footer_images(
-        &mut self,
-        media: &mut MediaRegistry,
-    ) -> Vec<(usize, Vec<ImageIdAndPath>)> {
+    fn collect_footer_rels(&mut self, media: &mut MediaRegistry) -> Vec<(usize, FooterRels)> {
         self.document
             .footers_mut()
             .enumerate()
             .filter_map(|(index, (_, footer))| {
-                let relationships = collect_footer_part(footer, media).relationships;
-                (!relationships.is_empty()).then_some((index, relationships))
+                let part = collect_footer_part(footer, media);
+                let mut rels = FooterRels::new();
+                rels.set_images(part.relationships);
+                rels.set_hyperlinks(part.hyperlinks);
+                (!rels.images.is_empty() || !rels.hyperlinks.is_empty()).then_some((index, rels))
             })
             .collect()
     }
@@ -1032,7 +1040,7 @@ impl Docx {
     pub fn collect_footnotes(&mut self) -> bool {
         let footnotes = collect_document_footnotes(&mut self.document);
         let is_footnotes = !footnotes.is_empty();
-        self.footnotes.add(footnotes);
+        self.footnotes.set(footnotes);
         is_footnotes
     }
 }
diff --git a/docx-core/src/documents/part_rels.rs b/docx-core/src/documents/part_rels.rs
new file mode 100644
index 0000000..6b31ba2
--- /dev/null
+++ b/docx-core/src/documents/part_rels.rs
@@ -0,0 +1,44 @@
+use crate::documents::BuildXML;
+use crate::{xml_builder::*, ImageIdAndPath};
+use std::io::Write;
+
+/// Relationships of a part that refers to images and external links only.
+#[derive(Debug, Clone, PartialEq, Default)]
+pub(crate) struct PartRels {
+    pub(crate) images: Vec<ImageIdAndPath>,
+    pub(crate) hyperlinks: Vec<(String, String)>,
+}
+
+impl PartRels {
+    pub(crate) fn is_empty(&self) -> bool {
+        self.images.is_empty() && self.hyperlinks.is_empty()
+    }
+}
+
+impl BuildXML for PartRels {
+    fn build_to<W: Write>(
+        &self,
+        stream: crate::xml::writer::EventWriter<W>,
+    ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        XMLBuilder::from(stream)
+            .declaration(None)?
+            .open_relationships("http://schemas.openxmlformats.org/package/2006/relationships")?
+            .apply_each(&self.images, |(id, path), b| {
+                b.relationship(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/image",
+                    path,
+                )
+            })?
+            .apply_each(&self.hyperlinks, |(id, path), b| {
+                b.relationship_with_mode(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
+                    path,
+                    "External",
+                )
+            })?
+            .close()?
+            .into_inner()
+    }
+}
diff --git a/docx-core/src/documents/xml_docx.rs b/docx-core/src/documents/xml_docx.rs
index 9ad7705..d2c8728 100644
--- a/docx-core/src/documents/xml_docx.rs
+++ b/docx-core/src/documents/xml_docx.rs
@@ -13,6 +13,7 @@ pub struct XMLDocx {
     pub styles: Vec<u8>,
     pub document: Vec<u8>,
     pub comments: Vec<u8>,
+    pub comments_rels: Option<Vec<u8>>,
     pub document_rels: Vec<u8>,
     pub settings: Vec<u8>,
     pub font_table: Vec<u8>,
@@ -30,6 +31,7 @@ pub struct XMLDocx {
     pub custom_item_rels: Vec<Vec<u8>>,
     pub custom_item_props: Vec<Vec<u8>>,
     pub footnotes: Vec<u8>,
+    pub footnotes_rels: Option<Vec<u8>>,
 }
 
 impl XMLDocx {
diff --git a/docx-core/src/zipper/mod.rs b/docx-core/src/zipper/mod.rs
index c1b9b3c..5718408 100644
--- a/docx-core/src/zipper/mod.rs
+++ b/docx-core/src/zipper/mod.rs
@@ -83,6 +83,14 @@ where
     zip.write_all(&xml.comments_extended)?;
     zip.start_file("word/footnotes.xml", options)?;
     zip.write_all(&xml.footnotes)?;
+    if let Some(rels) = &xml.comments_rels {
+        zip.start_file("word/_rels/comments.xml.rels", options)?;
+        zip.write_all(rels)?;
+    }
+    if let Some(rels) = &xml.footnotes_rels {
+        zip.start_file("word/_rels/footnotes.xml.rels", options)?;
+        zip.write_all(rels)?;
+    }
 
     for (i, h) in xml.headers.iter().enumerate() {
         zip.start_file(format!("word/header{}.xml", i + 1), options)?;
@@ -271,6 +279,24 @@ where
         options,
         &docx.footnotes,
     )?;
+    if let Some(rels) = &package.comments_rels {
+        write_xml(
+            &mut zip,
+            &mut xml_buffer,
+            "word/_rels/comments.xml.rels",
+            options,
+            rels,
+        )?;
+    }
+    if let Some(rels) = &package.footnotes_rels {
+        write_xml(
+            &mut zip,
+            &mut xml_buffer,
+            "word/_rels/footnotes.xml.rels",
+            options,
+            rels,
+        )?;
+    }
 
     let mut header_rels = package.header_rels.iter().peekable();
     for (index, (_, header)) in docx.document.headers().enumerate() {
-- 
2.43.0


From 3de86cc4f14031d7bc17a291a43332eafc22668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:39 +0000
Subject: [PATCH 04/75] fix: link every custom XML item and web extension to
 its own parts

The first custom XML item shared its relationship id with the footnotes part,
later items pointed to the first item's properties, and content types were
declared for parts that are not written.
---
 docx-core/src/documents/content_types.rs    |  2 +-
 docx-core/src/documents/custom_item_rels.rs | 12 +++++++-
 docx-core/src/documents/document_rels.rs    |  2 +-
 docx-core/src/documents/mod.rs              | 21 +++++++++----
 docx-core/src/documents/taskpanes.rs        | 33 ++++++++++++++++-----
 5 files changed, 53 insertions(+), 17 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index 8bbd8bf..2cc90a1 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -106,7 +106,7 @@ impl ContentTypes {
 
     pub fn add_custom_xml(mut self) -> Self {
         self.types.insert(
-            format!("/customXml/itemProps{}.xml", self.web_extension_count),
+            format!("/customXml/itemProps{}.xml", self.custom_xml_count),
             "application/vnd.openxmlformats-officedocument.customXmlProperties+xml".to_owned(),
         );
         self.custom_xml_count += 1;
diff --git a/docx-core/src/documents/custom_item_rels.rs b/docx-core/src/documents/custom_item_rels.rs
index 2cb0c74..f16734b 100644
--- a/docx-core/src/documents/custom_item_rels.rs
+++ b/docx-core/src/documents/custom_item_rels.rs
@@ -8,6 +8,8 @@ use crate::xml_builder::*;
 #[serde(rename_all = "camelCase")]
 pub struct CustomItemRels {
     custom_item_count: usize,
+    #[serde(skip)]
+    preceding_items: usize,
 }
 
 impl CustomItemRels {
@@ -15,6 +17,14 @@ impl CustomItemRels {
         Default::default()
     }
 
+    /// Creates the relationships of the custom XML item with this number.
+    pub(crate) fn for_item(number: usize) -> Self {
+        Self {
+            custom_item_count: 1,
+            preceding_items: number - 1,
+        }
+    }
+
     pub fn add_item(mut self) -> Self {
         self.custom_item_count += 1;
         self
@@ -33,7 +43,7 @@ impl BuildXML for CustomItemRels {
                 b.relationship(
           &format!("rId{}", id + 1),
           "http://schemas.openxmlformats.org/officeDocument/2006/relationships/customXmlProps",
-          &format!("itemProps{}.xml", id + 1),
+          &format!("itemProps{}.xml", self.preceding_items + id + 1),
         )
             })?
             .close()?
diff --git a/docx-core/src/documents/document_rels.rs b/docx-core/src/documents/document_rels.rs
index 2edfb2f..b8ea39a 100644
--- a/docx-core/src/documents/document_rels.rs
+++ b/docx-core/src/documents/document_rels.rs
@@ -110,7 +110,7 @@ impl BuildXML for DocumentRels {
             })?
             .apply_each(0..self.custom_xml_count, |i, b| {
                 b.relationship(
-                    &format!("rId{}", i + 8),
+                    &format!("rIdCustomXml{}", i + 1),
                     "http://schemas.openxmlformats.org/officeDocument/2006/relationships/customXml",
                     &format!("../customXml/item{}.xml", i + 1),
                 )
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 9b1c277..9a98fdb 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -684,23 +684,28 @@ impl Docx {
     }
 
     pub fn taskpanes(mut self) -> Self {
+        if self.taskpanes.is_some() {
+            return self;
+        }
         self.taskpanes = Some(Taskpanes::new());
         self.rels = self.rels.add_taskpanes_rel();
         self.content_type = self.content_type.add_taskpanes();
         self
     }
 
-    pub fn web_extension(mut self, ext: WebExtension) -> Self {
-        self.web_extensions.push(ext);
-        self.taskpanes_rels = self.taskpanes_rels.add_rel();
-        self.content_type = self.content_type.add_web_extensions();
-        self
+    pub fn web_extension(self, ext: WebExtension) -> Self {
+        // A web extension is only reachable from the task panes part.
+        let mut this = self.taskpanes();
+        this.web_extensions.push(ext);
+        this.taskpanes_rels = this.taskpanes_rels.add_rel();
+        this.content_type = this.content_type.add_web_extensions();
+        this
     }
 
     pub fn add_custom_item(mut self, id: &str, xml: &str) -> Self {
         let x = CustomItem::from_str(xml).expect("should parse xml string");
         self.content_type = self.content_type.add_custom_xml();
-        let rel = CustomItemRels::new().add_item();
+        let rel = CustomItemRels::for_item(self.custom_items.len() + 1);
         self.custom_item_props.push(CustomItemProperty::new(id));
         self.document_rels = self.document_rels.add_custom_item();
         self.custom_item_rels.push(rel);
@@ -865,6 +870,10 @@ impl Docx {
     fn prepare_package(&mut self) -> PackageMetadata {
         let has_toc = self.prepare_for_build();
 
+        if let Some(taskpanes) = &mut self.taskpanes {
+            taskpanes.set_web_extension_count(self.web_extensions.len());
+        }
+
         let mut media = MediaRegistry::default();
         let document_part = collect_document_part(&mut self.document, &mut media);
         let header_rels = self.collect_header_rels(&mut media);
diff --git a/docx-core/src/documents/taskpanes.rs b/docx-core/src/documents/taskpanes.rs
index 8662f5f..76c2660 100644
--- a/docx-core/src/documents/taskpanes.rs
+++ b/docx-core/src/documents/taskpanes.rs
@@ -4,13 +4,28 @@ use std::io::Write;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
-#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Copy, Default)]
-pub struct Taskpanes {}
+#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Copy)]
+pub struct Taskpanes {
+    #[serde(skip)]
+    web_extension_count: usize,
+}
+
+impl Default for Taskpanes {
+    fn default() -> Self {
+        Self {
+            web_extension_count: 1,
+        }
+    }
+}
 
 impl Taskpanes {
     pub fn new() -> Self {
         Default::default()
     }
+
+    pub(crate) fn set_web_extension_count(&mut self, count: usize) {
+        self.web_extension_count = count;
+    }
 }
 
 impl BuildXML for Taskpanes {
@@ -21,12 +36,14 @@ impl BuildXML for Taskpanes {
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_taskpanes("http://schemas.microsoft.com/office/webextensions/taskpanes/2010/11")?
-            .open_taskpane("", "1", "350", "1")?
-            .webextensionref(
-                "http://schemas.openxmlformats.org/officeDocument/2006/relationships",
-                "rId1",
-            )?
-            .close()?
+            .apply_each(0..self.web_extension_count, |i, b| {
+                b.open_taskpane("", "1", "350", "1")?
+                    .webextensionref(
+                        "http://schemas.openxmlformats.org/officeDocument/2006/relationships",
+                        &format!("rId{}", i + 1),
+                    )?
+                    .close()
+            })?
             .close()?
             .into_inner()
     }
-- 
2.43.0


From de9ee444aea15af17a7e19d37aaa3e3ac8e30f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:16 +0000
Subject: [PATCH 05/75] fix: keep headers and footers with the section they
 were set for

Relationship ids followed the order of the calls while the parts were numbered
by section and page kind, and replaced headers left dangling relationships.
Even page headers of sections now also switch on even and odd headers.
---
 docx-core/src/documents/content_types.rs      | 19 ++++++++++
 docx-core/src/documents/document.rs           | 21 ++++++++---
 .../documents/elements/section_property.rs    | 36 ++++++++++++++++++-
 docx-core/src/documents/mod.rs                | 24 +++++++++++++
 4 files changed, 94 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index 2cc90a1..db1cf12 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -130,6 +130,25 @@ impl ContentTypes {
         );
         self
     }
+
+    /// Declares exactly the given number of header and footer parts.
+    pub(crate) fn set_headers_and_footers(&mut self, header_count: usize, footer_count: usize) {
+        for number in 1..=self.header_count {
+            self.types.remove(&format!("/word/header{number}.xml"));
+        }
+        for number in 1..=self.footer_count {
+            self.types.remove(&format!("/word/footer{number}.xml"));
+        }
+        self.header_count = 0;
+        self.footer_count = 0;
+        for _ in 0..header_count {
+            *self = std::mem::take(self).add_header();
+        }
+        for _ in 0..footer_count {
+            *self = std::mem::take(self).add_footer();
+        }
+    }
+
     pub fn add_footnotes(mut self) -> Self {
         self.types.insert(
             "/word/footnotes.xml".to_owned(),
diff --git a/docx-core/src/documents/document.rs b/docx-core/src/documents/document.rs
index 3e66aa4..19f6f96 100644
--- a/docx-core/src/documents/document.rs
+++ b/docx-core/src/documents/document.rs
@@ -252,11 +252,22 @@ impl Document {
         self
     }
 
-    /// Iterates headers in relationship creation order.
+    /// Iterates the section properties in the order in which their header and
+    /// footer parts are numbered.
+    pub(crate) fn section_properties_mut(&mut self) -> impl Iterator<Item = &mut SectionProperty> {
+        std::iter::once(&mut self.section_property).chain(self.children.iter_mut().filter_map(
+            |child| match child {
+                DocumentChild::Section(section) => Some(&mut section.property),
+                _ => None,
+            },
+        ))
+    }
+
+    /// Iterates headers in the order in which their parts are numbered.
     ///
-    /// Relationship IDs are assigned to the document property first and then
-    /// to section children in insertion order. Preserving that order avoids a
-    /// sort and keeps double-digit IDs aligned with numbered package parts.
+    /// The document property comes first and section children follow in
+    /// insertion order. Preserving that order avoids a sort and keeps
+    /// double-digit IDs aligned with numbered package parts.
     pub(crate) fn headers(&self) -> impl Iterator<Item = &(String, Header)> {
         self.section_property.headers().chain(
             self.children
@@ -282,7 +293,7 @@ impl Document {
         )
     }
 
-    /// Iterates footers in relationship creation order.
+    /// Iterates footers in the order in which their parts are numbered.
     pub(crate) fn footers(&self) -> impl Iterator<Item = &(String, Footer)> {
         self.section_property.footers().chain(
             self.children
diff --git a/docx-core/src/documents/elements/section_property.rs b/docx-core/src/documents/elements/section_property.rs
index 74b8f9b..4fb5321 100644
--- a/docx-core/src/documents/elements/section_property.rs
+++ b/docx-core/src/documents/elements/section_property.rs
@@ -2,7 +2,7 @@ use super::*;
 use crate::documents::BuildXML;
 use crate::types::*;
 use crate::xml_builder::*;
-use crate::{Footer, Header};
+use crate::{create_footer_rid, create_header_rid, Footer, Header};
 use std::io::Write;
 
 use serde::Serialize;
@@ -181,6 +181,40 @@ impl SectionProperty {
         .filter_map(Option::as_mut)
     }
 
+    /// Gives every header and footer the relationship id of the next part.
+    pub(crate) fn number_headers_and_footers(
+        &mut self,
+        header_count: &mut usize,
+        footer_count: &mut usize,
+    ) {
+        for (header, reference) in [
+            (&mut self.header, &mut self.header_reference),
+            (&mut self.first_header, &mut self.first_header_reference),
+            (&mut self.even_header, &mut self.even_header_reference),
+        ] {
+            if let Some((rid, _)) = header {
+                *header_count += 1;
+                *rid = create_header_rid(*header_count);
+                if let Some(reference) = reference {
+                    reference.id.clone_from(rid);
+                }
+            }
+        }
+        for (footer, reference) in [
+            (&mut self.footer, &mut self.footer_reference),
+            (&mut self.first_footer, &mut self.first_footer_reference),
+            (&mut self.even_footer, &mut self.even_footer_reference),
+        ] {
+            if let Some((rid, _)) = footer {
+                *footer_count += 1;
+                *rid = create_footer_rid(*footer_count);
+                if let Some(reference) = reference {
+                    reference.id.clone_from(rid);
+                }
+            }
+        }
+    }
+
     pub fn page_num_type(mut self, h: PageNumType) -> Self {
         self.page_num_type = Some(h);
         self
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 9a98fdb..45bae4a 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -865,10 +865,34 @@ impl Docx {
         has_toc
     }
 
+    /// Numbers the header and footer parts in the order in which they are written.
+    ///
+    /// Headers and footers can be set in any order, more than once, and before
+    /// or after sections, so relationship ids handed out while the document was
+    /// put together need not match the final parts.
+    fn number_headers_and_footers(&mut self) {
+        let mut header_count = 0;
+        let mut footer_count = 0;
+        let mut has_even = false;
+        for property in self.document.section_properties_mut() {
+            has_even |= property.even_header.is_some() || property.even_footer.is_some();
+            property.number_headers_and_footers(&mut header_count, &mut footer_count);
+        }
+
+        self.document_rels.header_count = header_count;
+        self.document_rels.footer_count = footer_count;
+        self.content_type
+            .set_headers_and_footers(header_count, footer_count);
+        if has_even {
+            self.settings = std::mem::take(&mut self.settings).even_and_odd_headers();
+        }
+    }
+
     /// Normalizes the document and collects metadata shared by buffered and
     /// streaming package output.
     fn prepare_package(&mut self) -> PackageMetadata {
         let has_toc = self.prepare_for_build();
+        self.number_headers_and_footers();
 
         if let Some(taskpanes) = &mut self.taskpanes {
             taskpanes.set_web_extension_count(self.web_extensions.len());
-- 
2.43.0


From 2e28d41eafdd9a6c4a3665a6cf01cab0d399347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:03 +0000
Subject: [PATCH 06/75] fix: end every table cell with a paragraph

---
 .../src/documents/elements/table_cell.rs      | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/docx-core/src/documents/elements/table_cell.rs b/docx-core/src/documents/elements/table_cell.rs
index 7890749..b1d65ba 100644
--- a/docx-core/src/documents/elements/table_cell.rs
+++ b/docx-core/src/documents/elements/table_cell.rs
@@ -161,20 +161,17 @@ impl BuildXML for TableCell {
         XMLBuilder::from(stream)
             .open_table_cell()?
             .add_child(&self.property)?
-            .apply_each(&self.children, |ch, b| {
-                match ch {
-                    TableCellContent::Paragraph(p) => b.add_child(&**p),
-                    TableCellContent::Table(t) => {
-                        b.add_child(&**t)?
-                            // INFO: We need to add empty paragraph when parent cell includes only cell.
-                            .apply_if(self.children.len() == 1, |b| b.add_child(&Paragraph::new()))
-                    }
-                    TableCellContent::StructuredDataTag(t) => b.add_child(&t),
-                    TableCellContent::TableOfContents(t) => b.add_child(&t),
-                }
+            .apply_each(&self.children, |ch, b| match ch {
+                TableCellContent::Paragraph(p) => b.add_child(&**p),
+                TableCellContent::Table(t) => b.add_child(&**t),
+                TableCellContent::StructuredDataTag(t) => b.add_child(&t),
+                TableCellContent::TableOfContents(t) => b.add_child(&t),
             })?
-            // INFO: We need to add empty paragraph when parent cell includes only cell.
-            .apply_if(self.children.is_empty(), |b| b.add_child(&Paragraph::new()))?
+            // INFO: A cell has to end with a paragraph.
+            .apply_if(
+                !matches!(self.children.last(), Some(TableCellContent::Paragraph(_))),
+                |b| b.add_child(&Paragraph::new()),
+            )?
             .close()?
             .into_inner()
     }
-- 
2.43.0


From bb32d4c2fc50e290db3d6338f7c95a39eb769f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:03 +0000
Subject: [PATCH 07/75] fix: end the field of a table of contents followed by a
 table

---
 docx-core/src/documents/elements/table_of_contents.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/docx-core/src/documents/elements/table_of_contents.rs b/docx-core/src/documents/elements/table_of_contents.rs
index b821801..f32661e 100644
--- a/docx-core/src/documents/elements/table_of_contents.rs
+++ b/docx-core/src/documents/elements/table_of_contents.rs
@@ -244,9 +244,7 @@ impl BuildXML for TableOfContents {
                             // insert empty line for table
                             // because it causes docx error if table is added after TOC
                             if i == 0 {
-                                b = b.add_child(
-                                    &Paragraph::new().add_run(Run::new().add_text("")),
-                                )?;
+                                b = b.add_child(&p2)?;
                             }
                             b = b.add_child(&t)?;
                         }
-- 
2.43.0


From 3dd958c333f5b93042413ee4a685ffa1f5c82ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:48 +0000
Subject: [PATCH 08/75] fix: link the numbering part wherever a numbering is
 used

Numbered paragraphs in a table of contents, in rows added later, in content
controls or tables of contents of cells, in comments and in footnotes and
numbered styles did not link the numbering part.
---
 docx-core/src/documents/mod.rs | 45 +++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 45bae4a..923f6b7 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -86,7 +86,9 @@ pub use xml_docx::*;
 use base64::Engine;
 use serde::{ser, Serialize};
 
-use self::document_tree::{visit_document, DocumentTreeVisitor};
+use self::document_tree::{
+    visit_comment, visit_document, visit_footer, visit_footnote, visit_header, DocumentTreeVisitor,
+};
 use self::image_collector::{
     collect_comments_part, collect_document_footnotes, collect_document_part, collect_footer_part,
     collect_footnotes_part, collect_header_part, CollectedPart, MediaRegistry,
@@ -888,6 +890,33 @@ impl Docx {
         }
     }
 
+    /// Links the numbering part if any paragraph or style uses a numbering.
+    fn detect_numberings(&mut self) {
+        let mut finder = NumberingFinder::default();
+        visit_document(&mut self.document, &mut finder);
+        for (_, header) in self.document.headers_mut() {
+            visit_header(header, &mut finder);
+        }
+        for (_, footer) in self.document.footers_mut() {
+            visit_footer(footer, &mut finder);
+        }
+        for comment in &mut self.comments.comments {
+            visit_comment(comment, &mut finder);
+        }
+        for footnote in &mut self.footnotes.footnotes {
+            visit_footnote(footnote, &mut finder);
+        }
+        if finder.found
+            || self
+                .styles
+                .styles
+                .iter()
+                .any(|style| style.paragraph_property.numbering_property.is_some())
+        {
+            self.document_rels.has_numberings = true;
+        }
+    }
+
     /// Normalizes the document and collects metadata shared by buffered and
     /// streaming package output.
     fn prepare_package(&mut self) -> PackageMetadata {
@@ -910,6 +939,8 @@ impl Docx {
         let footnotes_rels =
             note_relationships(collect_footnotes_part(&mut self.footnotes, &mut media));
 
+        self.detect_numberings();
+
         if !self.footnotes.footnotes.is_empty() {
             self.content_type = std::mem::take(&mut self.content_type).add_footnotes();
             self.document_rels.has_footnotes = true;
@@ -1116,6 +1147,18 @@ impl DocumentTreeVisitor for DependencyCollector {
     }
 }
 
+/// Finds out whether any visited paragraph uses a numbering.
+#[derive(Default)]
+struct NumberingFinder {
+    found: bool,
+}
+
+impl DocumentTreeVisitor for NumberingFinder {
+    fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
+        self.found |= paragraph.has_numbering || paragraph.property.numbering_property.is_some();
+    }
+}
+
 /// Attaches comments read from the comments part to their ranges.
 struct CommentStore<'a> {
     comments_by_id: HashMap<usize, &'a Comment>,
-- 
2.43.0


From 51b9e43f2fd920e5ca225d8ad2582ea1b5a4ccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:27 +0000
Subject: [PATCH 09/75] fix: number tracked changes per package

Paragraph property changes drew their ids from a counter of their own and
clashed with other changes, and ids depended on what was written before.
---
 docx-core/src/documents/history_id.rs         | 33 +++++++++++++++----
 docx-core/src/documents/mod.rs                |  1 +
 .../documents/paragraph_property_change_id.rs | 11 ++-----
 3 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/docx-core/src/documents/history_id.rs b/docx-core/src/documents/history_id.rs
index 8b6ab2f..ae0a552 100644
--- a/docx-core/src/documents/history_id.rs
+++ b/docx-core/src/documents/history_id.rs
@@ -1,15 +1,36 @@
 #[cfg(not(test))]
-use std::sync::atomic::AtomicUsize;
+use std::cell::Cell;
 #[cfg(not(test))]
-static HISTORY_ID: AtomicUsize = AtomicUsize::new(0);
+thread_local! {
+    // Ids are drawn while a package is written, which one thread does from
+    // start to end. Starting again for each package keeps its ids distinct and
+    // independent of anything written before.
+    static HISTORY_ID: Cell<usize> = const { Cell::new(0) };
+}
+
+#[cfg(not(test))]
+pub(crate) fn generate_history_id() -> usize {
+    HISTORY_ID.with(|next| {
+        let id = next.get();
+        next.set(id.wrapping_add(1));
+        id
+    })
+}
+
+#[cfg(not(test))]
+pub(crate) fn reset_history_id() {
+    HISTORY_ID.set(0);
+}
+
+#[cfg(test)]
+pub(crate) fn reset_history_id() {
+    // NOP
+}
 
 #[cfg(not(test))]
 pub trait HistoryId {
     fn generate(&self) -> String {
-        use std::sync::atomic::Ordering;
-
-        let id = HISTORY_ID.fetch_add(1, Ordering::Relaxed);
-        format!("{id}")
+        generate_history_id().to_string()
     }
 }
 
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 923f6b7..4951bae 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -819,6 +819,7 @@ impl Docx {
 
     fn reset(&self) {
         crate::reset_para_id();
+        history_id::reset_history_id();
     }
 
     /// Expands automatically generated tables of contents before dependency
diff --git a/docx-core/src/documents/paragraph_property_change_id.rs b/docx-core/src/documents/paragraph_property_change_id.rs
index 7624bc6..fea18c1 100644
--- a/docx-core/src/documents/paragraph_property_change_id.rs
+++ b/docx-core/src/documents/paragraph_property_change_id.rs
@@ -1,15 +1,8 @@
-#[cfg(not(test))]
-use std::sync::atomic::AtomicUsize;
-#[cfg(not(test))]
-static HISTORY_ID: AtomicUsize = AtomicUsize::new(0);
-
 #[cfg(not(test))]
 pub trait ParagraphPropertyChangeId {
+    // Shares its ids with insertions, deletions and moves.
     fn generate(&self) -> String {
-        use std::sync::atomic::Ordering;
-
-        let id = HISTORY_ID.fetch_add(1, Ordering::Relaxed);
-        format!("{id}")
+        super::history_id::generate_history_id().to_string()
     }
 }
 
-- 
2.43.0


From cd6fc5b5ffe2b60b1ba9b7c78560487febfd4037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:41:31 +0000
Subject: [PATCH 10/75] fix: keep ids of paragraphs created while writing
 unique

Section breaks, tables of contents and cells get paragraphs while they are
written, and their ids could repeat ids of the document.
---
 docx-core/src/documents/mod.rs          | 49 ++++++++++++++++++-------
 docx-core/src/documents/paragraph_id.rs | 37 +++++++++++++++----
 2 files changed, 65 insertions(+), 21 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 4951bae..339fca8 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -728,14 +728,11 @@ impl Docx {
     pub fn build(mut self) -> XMLDocx {
         let package = self.prepare_package();
 
-        let web_extensions = self.web_extensions.iter().map(|ext| ext.build()).collect();
-        let custom_items = self.custom_items.iter().map(|xml| xml.build()).collect();
-        let custom_item_props = self.custom_item_props.iter().map(|p| p.build()).collect();
-        let custom_item_rels = self
-            .custom_item_rels
-            .iter()
-            .map(|rel| rel.build())
-            .collect();
+        // Parts are rendered in the order in which `pack` writes them, so that
+        // ids drawn while rendering are the same either way.
+        let document = self.document.build();
+        let comments = self.comments.build();
+        let footnotes = self.footnotes.build();
 
         let headers = self
             .document
@@ -749,18 +746,27 @@ impl Docx {
             .map(|(_, footer)| footer.build())
             .collect();
 
+        let web_extensions = self.web_extensions.iter().map(|ext| ext.build()).collect();
+        let custom_items = self.custom_items.iter().map(|xml| xml.build()).collect();
+        let custom_item_props = self.custom_item_props.iter().map(|p| p.build()).collect();
+        let custom_item_rels = self
+            .custom_item_rels
+            .iter()
+            .map(|rel| rel.build())
+            .collect();
+
         let header_rels = build_sparse_relationships(package.header_rels);
         let footer_rels = build_sparse_relationships(package.footer_rels);
         let comments_rels = package.comments_rels.map(|rels| rels.build());
         let footnotes_rels = package.footnotes_rels.map(|rels| rels.build());
 
-        XMLDocx {
+        let xml = XMLDocx {
             content_type: self.content_type.build(),
             rels: self.rels.build(),
             doc_props: self.doc_props.build(),
             styles: self.styles.build(),
-            document: self.document.build(),
-            comments: self.comments.build(),
+            document,
+            comments,
             comments_rels,
             document_rels: self.document_rels.build(),
             header_rels,
@@ -778,9 +784,11 @@ impl Docx {
             custom_items,
             custom_item_rels,
             custom_item_props,
-            footnotes: self.footnotes.build(),
+            footnotes,
             footnotes_rels,
-        }
+        };
+        self.reset();
+        xml
     }
 
     /// Writes this document directly as a DOCX ZIP archive.
@@ -793,7 +801,9 @@ impl Docx {
         W: std::io::Write + std::io::Seek,
     {
         let package = self.prepare_package();
-        crate::zipper::zip_docx(writer, self, package)
+        let result = crate::zipper::zip_docx(writer, self, package);
+        crate::reset_para_id();
+        result
     }
 
     pub fn json(&self) -> String {
@@ -865,6 +875,7 @@ impl Docx {
         let has_toc = self.expand_auto_tocs();
         self.refresh_duplicate_para_ids();
         self.update_dependencies();
+        self.reserve_para_ids();
         has_toc
     }
 
@@ -970,6 +981,16 @@ impl Docx {
         }
     }
 
+    /// Keeps paragraphs that are created while writing, such as section breaks
+    /// and the last paragraph of a cell, from repeating an ID.
+    fn reserve_para_ids(&self) {
+        let mut counts: HashMap<&str, usize> = HashMap::new();
+        collect_para_ids_in_docx(self, &mut counts);
+        // Nothing is drawn from here on but by the parts being written.
+        crate::reset_para_id();
+        paragraph_id::reserve_para_ids(counts.into_keys().map(str::to_owned).collect());
+    }
+
     /// Replaces empty and duplicate paragraph IDs with unique values.
     fn refresh_duplicate_para_ids(&mut self) {
         let mut counts: HashMap<&str, usize> = HashMap::new();
diff --git a/docx-core/src/documents/paragraph_id.rs b/docx-core/src/documents/paragraph_id.rs
index 051e311..05b1e99 100644
--- a/docx-core/src/documents/paragraph_id.rs
+++ b/docx-core/src/documents/paragraph_id.rs
@@ -1,26 +1,44 @@
 #[cfg(not(test))]
-use std::cell::Cell;
+use std::{
+    cell::{Cell, RefCell},
+    collections::HashSet,
+};
 #[cfg(not(test))]
 thread_local! {
     // Resetting a process-global counter lets one document reuse IDs while
     // another thread is still creating paragraphs. Keep reset scope local;
     // build-time normalization handles IDs from paragraphs merged across threads.
     static PARA_ID: Cell<u32> = const { Cell::new(1) };
+    // Ids already used by the package being written, which paragraphs created
+    // while writing must not repeat.
+    static RESERVED_PARA_IDS: RefCell<HashSet<String>> = RefCell::new(HashSet::new());
 }
 
 #[cfg(not(test))]
 pub fn generate_para_id() -> String {
-    let id = PARA_ID.with(|next| {
-        let id = next.get();
-        next.set(id.checked_add(1).expect("paragraph ID space exhausted"));
-        id
-    });
-    format!("{id:08x}")
+    loop {
+        let id = PARA_ID.with(|next| {
+            let id = next.get();
+            next.set(id.checked_add(1).expect("paragraph ID space exhausted"));
+            id
+        });
+        let id = format!("{id:08x}");
+        if RESERVED_PARA_IDS.with(|reserved| !reserved.borrow().contains(&id)) {
+            return id;
+        }
+    }
+}
+
+/// Keeps [`generate_para_id`] from returning any of these ids on this thread.
+#[cfg(not(test))]
+pub(crate) fn reserve_para_ids(ids: HashSet<String>) {
+    RESERVED_PARA_IDS.set(ids);
 }
 
 #[cfg(not(test))]
 pub fn reset_para_id() {
     PARA_ID.set(1);
+    RESERVED_PARA_IDS.take();
 }
 
 #[cfg(test)]
@@ -28,6 +46,11 @@ pub fn generate_para_id() -> String {
     "12345678".to_owned()
 }
 
+#[cfg(test)]
+pub(crate) fn reserve_para_ids(_ids: std::collections::HashSet<String>) {
+    // NOP
+}
+
 #[cfg(test)]
 pub fn reset_para_id() {
     // NOP
-- 
2.43.0


From a1d6f3c38efa6dbe956aa03995acfea05eb6e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:44:42 +0000
Subject: [PATCH 11/75] fix: list every selected heading once in an automatic
 table of contents

Headings nested in tables, sections and content controls were skipped, a
paragraph selected twice was listed twice, tables of contents inside other
containers were never filled, and generated bookmarks could reuse the id or
the name of an existing one.
---
 docx-core/src/documents/document_tree.rs |  40 ++--
 docx-core/src/documents/mod.rs           | 260 ++++++++++++++---------
 2 files changed, 182 insertions(+), 118 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index 3010273..c6725cd 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -5,10 +5,10 @@
 //! dependency collectors complete when new package metadata is added.
 
 use crate::{
-    Comment, CommentChild, CommentRangeStart, Delete, DeleteChild, Document, DocumentChild,
-    DrawingData, Footer, FooterChild, Footnote, Header, HeaderChild, Hyperlink, Insert,
-    InsertChild, MoveFrom, MoveFromChild, MoveTo, MoveToChild, Paragraph, ParagraphChild, Pic, Run,
-    RunChild, Section, SectionChild, StructuredDataTag, StructuredDataTagChild, Table,
+    BookmarkStart, Comment, CommentChild, CommentRangeStart, Delete, DeleteChild, Document,
+    DocumentChild, DrawingData, Footer, FooterChild, Footnote, Header, HeaderChild, Hyperlink,
+    Insert, InsertChild, MoveFrom, MoveFromChild, MoveTo, MoveToChild, Paragraph, ParagraphChild,
+    Pic, Run, RunChild, Section, SectionChild, StructuredDataTag, StructuredDataTagChild, Table,
     TableCellContent, TableChild, TableOfContents, TableRowChild,
 };
 
@@ -34,6 +34,14 @@ pub(crate) trait DocumentTreeVisitor {
     /// Visits a hyperlink before its children are traversed.
     fn visit_hyperlink(&mut self, _link: &mut Hyperlink) {}
 
+    /// Visits the start of a bookmark.
+    fn visit_bookmark_start(&mut self, _bookmark: &mut BookmarkStart) {}
+
+    /// Visits a table of contents and decides whether to traverse its content.
+    fn visit_table_of_contents(&mut self, _toc: &mut TableOfContents) -> bool {
+        true
+    }
+
     /// Visits the start of a commented range. The comment itself belongs to
     /// the comments part, so its content is not traversed.
     fn visit_comment_start(&mut self, _comment: &mut CommentRangeStart) {}
@@ -96,9 +104,8 @@ fn visit_document_child(child: &mut DocumentChild, visitor: &mut impl DocumentTr
         DocumentChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
         DocumentChild::Section(section) => visit_section(section, visitor),
         DocumentChild::CommentStart(comment) => visitor.visit_comment_start(comment),
-        DocumentChild::BookmarkStart(_)
-        | DocumentChild::BookmarkEnd(_)
-        | DocumentChild::CommentEnd(_) => {}
+        DocumentChild::BookmarkStart(bookmark) => visitor.visit_bookmark_start(bookmark),
+        DocumentChild::BookmarkEnd(_) | DocumentChild::CommentEnd(_) => {}
     }
 }
 
@@ -110,9 +117,8 @@ fn visit_section(section: &mut Section, visitor: &mut impl DocumentTreeVisitor)
             SectionChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
             SectionChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
             SectionChild::CommentStart(comment) => visitor.visit_comment_start(comment),
-            SectionChild::BookmarkStart(_)
-            | SectionChild::BookmarkEnd(_)
-            | SectionChild::CommentEnd(_) => {}
+            SectionChild::BookmarkStart(bookmark) => visitor.visit_bookmark_start(bookmark),
+            SectionChild::BookmarkEnd(_) | SectionChild::CommentEnd(_) => {}
         }
     }
 }
@@ -135,6 +141,9 @@ fn visit_table(table: &mut Table, visitor: &mut impl DocumentTreeVisitor) {
 }
 
 fn visit_table_of_contents(toc: &mut TableOfContents, visitor: &mut impl DocumentTreeVisitor) {
+    if !visitor.visit_table_of_contents(toc) {
+        return;
+    }
     for content in toc
         .before_contents
         .iter_mut()
@@ -157,9 +166,10 @@ fn visit_structured_data_tag(tag: &mut StructuredDataTag, visitor: &mut impl Doc
                 visit_structured_data_tag(tag, visitor)
             }
             StructuredDataTagChild::CommentStart(comment) => visitor.visit_comment_start(comment),
-            StructuredDataTagChild::BookmarkStart(_)
-            | StructuredDataTagChild::BookmarkEnd(_)
-            | StructuredDataTagChild::CommentEnd(_) => {}
+            StructuredDataTagChild::BookmarkStart(bookmark) => {
+                visitor.visit_bookmark_start(bookmark)
+            }
+            StructuredDataTagChild::BookmarkEnd(_) | StructuredDataTagChild::CommentEnd(_) => {}
         }
     }
 }
@@ -183,8 +193,8 @@ fn visit_paragraph_children(
             ParagraphChild::Hyperlink(link) => visit_hyperlink(link, visitor),
             ParagraphChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
             ParagraphChild::CommentStart(comment) => visitor.visit_comment_start(comment),
-            ParagraphChild::BookmarkStart(_)
-            | ParagraphChild::BookmarkEnd(_)
+            ParagraphChild::BookmarkStart(bookmark) => visitor.visit_bookmark_start(bookmark),
+            ParagraphChild::BookmarkEnd(_)
             | ParagraphChild::CommentEnd(_)
             | ParagraphChild::PageNum(_)
             | ParagraphChild::NumPages(_) => {}
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 339fca8..520283a 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{HashMap, HashSet, VecDeque},
     str::FromStr,
 };
 
@@ -835,38 +835,33 @@ impl Docx {
     /// Expands automatically generated tables of contents before dependency
     /// collection.
     ///
-    /// Discovery records only indexes so static tables of contents are not
-    /// cloned. Eligible tables are moved out when expanded, while `has_toc`
-    /// still reports every table of contents so preset TOC styles are added.
+    /// Entries are collected before any of them is stored, so one table of
+    /// contents never lists another. The result reports every table of
+    /// contents so preset TOC styles are added for static ones as well.
     fn expand_auto_tocs(&mut self) -> bool {
-        let mut has_toc = false;
-        let auto_toc_indexes: Vec<usize> = self
-            .document
-            .children
-            .iter()
-            .enumerate()
-            .filter_map(|(index, child)| {
-                let DocumentChild::TableOfContents(toc) = child else {
-                    return None;
-                };
-                has_toc = true;
-                (toc.items.is_empty() && toc.auto).then_some(index)
-            })
-            .collect();
+        let mut finder = AutoTocFinder::default();
+        visit_document(&mut self.document, &mut finder);
+        if finder.instructions.is_empty() {
+            return finder.has_toc;
+        }
 
-        for index in auto_toc_indexes {
-            let mut children = std::mem::take(&mut self.document.children);
-            let toc = match std::mem::replace(
-                &mut children[index],
-                DocumentChild::TableOfContents(Box::default()),
-            ) {
-                DocumentChild::TableOfContents(toc) => *toc,
-                _ => unreachable!("collected index must still contain a table of contents"),
-            };
-            self.document.children = update_document_by_toc(children, &self.styles, toc, index);
+        let mut targets = TocTargets::default();
+        visit_document(&mut self.document, &mut targets);
+        for (_, header) in self.document.headers_mut() {
+            visit_header(header, &mut targets);
+        }
+        for (_, footer) in self.document.footers_mut() {
+            visit_footer(footer, &mut targets);
         }
 
-        has_toc
+        let items = finder
+            .instructions
+            .iter()
+            .map(|instr| collect_toc_items(&mut self.document, &self.styles, instr, &mut targets))
+            .collect();
+        visit_document(&mut self.document, &mut AutoTocFiller { items });
+
+        finder.has_toc
     }
 
     /// Prepares the complete document tree for package-part rendering.
@@ -1924,90 +1919,149 @@ fn next_unique_paragraph_id(used: &HashSet<String>) -> String {
         .expect("the paragraph ID space should not be exhausted")
 }
 
-/// Populates an automatic TOC and bookmarks matching headings in place.
-///
-/// `document_children[toc_index]` is the temporary placeholder installed by
-/// [`Docx::expand_auto_tocs`]. Reusing the input allocation preserves child
-/// order without rebuilding the entire document vector.
-fn update_document_by_toc(
-    mut document_children: Vec<DocumentChild>,
-    styles: &Styles,
-    mut toc: TableOfContents,
-    toc_index: usize,
-) -> Vec<DocumentChild> {
-    let heading_map = styles.create_heading_style_map();
-    let mut items = vec![];
+/// Tells whether the entries of a table of contents have to be generated.
+fn is_auto_toc(toc: &TableOfContents) -> bool {
+    toc.items.is_empty() && toc.auto
+}
 
-    if toc.instr.heading_styles_range.is_none() && !toc.instr.styles_with_levels.is_empty() {
-        // INFO: if \t option set without heading styles ranges, Microsoft word does not show ToC items...
-        document_children[toc_index] = DocumentChild::TableOfContents(Box::new(toc));
-        return document_children;
-    }
+/// Finds the instructions of all automatic tables of contents.
+#[derive(Default)]
+struct AutoTocFinder {
+    has_toc: bool,
+    instructions: Vec<InstrToC>,
+}
 
-    let (min, max) = toc.instr.heading_styles_range.unwrap_or((0, 9));
+impl DocumentTreeVisitor for AutoTocFinder {
+    fn visit_table_of_contents(&mut self, toc: &mut TableOfContents) -> bool {
+        self.has_toc = true;
+        if is_auto_toc(toc) {
+            self.instructions.push(toc.instr.clone());
+        }
+        true
+    }
+}
 
-    {
-        let style_map: std::collections::HashMap<&str, usize> = toc
-            .instr
-            .styles_with_levels
-            .iter()
-            .map(|style| {
-                let (style_id, level) = &style.0;
-                (style_id.as_str(), *level)
-            })
-            .collect();
+/// Stores generated entries in the automatic tables of contents, in the order
+/// in which [`AutoTocFinder`] found them.
+struct AutoTocFiller {
+    items: VecDeque<Vec<TableOfContentsItem>>,
+}
 
-        for child in &mut document_children {
-            if let DocumentChild::Paragraph(paragraph) = child {
-                let heading_level = paragraph
-                    .property
-                    .style
-                    .as_ref()
-                    .and_then(|style| heading_map.get(&style.val))
-                    .copied();
-                if let Some(heading_level) = heading_level {
-                    if min <= heading_level && max >= heading_level {
-                        let toc_key = TocKey::generate();
-                        items.push(
-                            TableOfContentsItem::new()
-                                .text(paragraph.raw_text())
-                                .toc_key(&toc_key)
-                                .level(heading_level),
-                        );
-                        paragraph.wrap_by_bookmark(generate_bookmark_id(), &toc_key);
-                    }
+impl DocumentTreeVisitor for AutoTocFiller {
+    fn visit_table_of_contents(&mut self, toc: &mut TableOfContents) -> bool {
+        if is_auto_toc(toc) {
+            toc.items = self.items.pop_front().unwrap_or_default();
+        }
+        true
+    }
+}
 
-                    if let Some((_min, _max)) = toc.instr.tc_field_level_range {
-                        // TODO: check tc field
-                    }
-                }
+/// Hands out bookmark ids and names that the document does not use yet.
+#[derive(Default)]
+struct TocTargets {
+    ids: HashSet<usize>,
+    names: HashSet<String>,
+    next_id: usize,
+    next_name: usize,
+}
 
-                // Support \t option. Collect toc items if style id matched.
-                let custom_level = paragraph
-                    .property
-                    .style
-                    .as_ref()
-                    .and_then(|style| style_map.get(style.val.as_str()))
-                    .copied();
-                if let Some(level) = custom_level {
-                    if min <= level && max >= level {
-                        let toc_key = TocKey::generate();
-                        items.push(
-                            TableOfContentsItem::new()
-                                .text(paragraph.raw_text())
-                                .toc_key(&toc_key)
-                                .level(level),
-                        );
-                        paragraph.wrap_by_bookmark(generate_bookmark_id(), &toc_key);
-                    }
-                }
+impl TocTargets {
+    fn generate(&mut self) -> (usize, String) {
+        loop {
+            self.next_id += 1;
+            if self.ids.insert(self.next_id) {
+                break;
+            }
+        }
+        loop {
+            let name = format!("_Toc{:08}", self.next_name);
+            self.next_name += 1;
+            if self.names.insert(name.clone()) {
+                return (self.next_id, name);
             }
         }
     }
+}
 
-    toc.items = items;
-    document_children[toc_index] = DocumentChild::TableOfContents(Box::new(toc));
-    document_children
+impl DocumentTreeVisitor for TocTargets {
+    fn visit_bookmark_start(&mut self, bookmark: &mut BookmarkStart) {
+        self.ids.insert(bookmark.id);
+        self.names.insert(bookmark.name.clone());
+    }
+}
+
+/// Bookmarks the headings selected by one instruction and collects their
+/// entries in document order.
+struct TocItemCollector<'a> {
+    heading_map: HashMap<String, usize>,
+    style_map: HashMap<&'a str, usize>,
+    range: (usize, usize),
+    targets: &'a mut TocTargets,
+    items: Vec<TableOfContentsItem>,
+}
+
+impl DocumentTreeVisitor for TocItemCollector<'_> {
+    fn visit_table_of_contents(&mut self, _toc: &mut TableOfContents) -> bool {
+        false
+    }
+
+    fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
+        let Some(style) = paragraph.property.style.as_ref() else {
+            return;
+        };
+        let (min, max) = self.range;
+        // A custom style listed with the \t option selects what headings do not.
+        let level = [
+            self.heading_map.get(style.val.as_str()),
+            self.style_map.get(style.val.as_str()),
+        ]
+        .into_iter()
+        .flatten()
+        .copied()
+        .find(|level| (min..=max).contains(level));
+        let Some(level) = level else {
+            return;
+        };
+        // TODO: check tc field
+
+        let (id, toc_key) = self.targets.generate();
+        self.items.push(
+            TableOfContentsItem::new()
+                .text(paragraph.raw_text())
+                .toc_key(&toc_key)
+                .level(level),
+        );
+        paragraph.wrap_by_bookmark(id, &toc_key);
+    }
+}
+
+fn collect_toc_items(
+    document: &mut Document,
+    styles: &Styles,
+    instr: &InstrToC,
+    targets: &mut TocTargets,
+) -> Vec<TableOfContentsItem> {
+    if instr.heading_styles_range.is_none() && !instr.styles_with_levels.is_empty() {
+        // INFO: if \t option set without heading styles ranges, Microsoft word does not show ToC items...
+        return vec![];
+    }
+
+    let mut collector = TocItemCollector {
+        heading_map: styles.create_heading_style_map(),
+        style_map: instr
+            .styles_with_levels
+            .iter()
+            .map(|style| {
+                let (style_id, level) = &style.0;
+                (style_id.as_str(), *level)
+            })
+            .collect(),
+        range: instr.heading_styles_range.unwrap_or((0, 9)),
+        targets,
+        items: vec![],
+    };
+    visit_document(document, &mut collector);
+    collector.items
 }
 
 #[cfg(test)]
-- 
2.43.0


From 53e3f560b7310eeb936c544322a649f38624c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:57 +0000
Subject: [PATCH 12/75] fix: keep picture relationship ids apart from those of
 other parts

A picture with an id such as rId1 or rIdHeader1 declared the same
relationship as a fixed part, a header or a link of the document.
---
 docx-core/src/documents/image_collector.rs | 42 ++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index a843e20..047520b 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -165,7 +165,9 @@ impl<'a> PackagePartCollector<'a> {
     /// Repeated preferred IDs use the next unchecked suffix instead of
     /// restarting at `_2`, while explicit suffixed IDs are still skipped.
     fn unique_relationship_id(&mut self, preferred_id: &str) -> String {
-        if !self.relationship_ids.contains(preferred_id) {
+        if !self.relationship_ids.contains(preferred_id)
+            && !has_reserved_document_prefix(preferred_id)
+        {
             return preferred_id.to_owned();
         }
 
@@ -262,12 +264,48 @@ impl DocumentTreeVisitor for FootnoteCollector {
     }
 }
 
-/// Collects package data from the complete main document tree in one pass.
+/// Relationship ids the main document always uses for its own parts.
+const RESERVED_DOCUMENT_RELATIONSHIP_IDS: [&str; 8] = [
+    "rId1", "rId2", "rId3", "rId4", "rId5", "rId6", "rId7", "rId8",
+];
+
+/// Tells whether an id looks like one given to a header, a footer or a custom
+/// XML item.
+fn has_reserved_document_prefix(id: &str) -> bool {
+    ["rIdHeader", "rIdFooter", "rIdCustomXml"]
+        .iter()
+        .any(|prefix| {
+            id.strip_prefix(prefix)
+                .is_some_and(|rest| rest.bytes().all(|byte| byte.is_ascii_digit()))
+        })
+}
+
+/// Collects the relationship ids pictures of the main document must not use.
+struct ReservedRelationshipIds(HashSet<String>);
+
+impl DocumentTreeVisitor for ReservedRelationshipIds {
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        if let HyperlinkData::External { rid, .. } = &link.link {
+            self.0.insert(rid.clone());
+        }
+    }
+}
+
+/// Collects package data from the complete main document tree.
 pub(crate) fn collect_document_part(
     document: &mut Document,
     registry: &mut MediaRegistry,
 ) -> CollectedPart {
+    let mut reserved = ReservedRelationshipIds(
+        RESERVED_DOCUMENT_RELATIONSHIP_IDS
+            .iter()
+            .map(|id| (*id).to_owned())
+            .collect(),
+    );
+    visit_document(document, &mut reserved);
+
     let mut collector = PackagePartCollector::new(registry, None);
+    collector.relationship_ids = reserved.0;
     visit_document(document, &mut collector);
     collector.finish()
 }
-- 
2.43.0


From dced2872b088cb3592fc19e1cadb0fab6c18cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:54 +0000
Subject: [PATCH 13/75] fix: give comments without a paragraph an empty one

Replies to a comment without any paragraph were not linked to it.
---
 docx-core/src/documents/mod.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 520283a..de4cfad 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -868,6 +868,7 @@ impl Docx {
     fn prepare_for_build(&mut self) -> bool {
         self.reset();
         let has_toc = self.expand_auto_tocs();
+        visit_document(&mut self.document, &mut CommentFiller);
         self.refresh_duplicate_para_ids();
         self.update_dependencies();
         self.reserve_para_ids();
@@ -1189,6 +1190,24 @@ impl DocumentTreeVisitor for CommentStore<'_> {
     }
 }
 
+/// Gives comments without any paragraph an empty one, which their replies can
+/// be linked to.
+struct CommentFiller;
+
+impl DocumentTreeVisitor for CommentFiller {
+    fn visit_comment_start(&mut self, comment: &mut CommentRangeStart) {
+        let comment = &mut comment.comment;
+        if last_para_id_in_comment(comment).is_none() {
+            // The id is chosen when all others are known.
+            let mut paragraph = Paragraph::new();
+            paragraph.id.clear();
+            comment
+                .children
+                .push(CommentChild::Paragraph(Box::new(paragraph)));
+        }
+    }
+}
+
 /// Returns the id of the paragraph that stands for a comment in
 /// `commentsExtended.xml`, which is the last one of the comment.
 fn last_para_id_in_comment(comment: &Comment) -> Option<&str> {
-- 
2.43.0


From f7f24af85e6c725d0af13b7cbdf590b74453d3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:47:49 +0000
Subject: [PATCH 14/75] fix: write an empty paragraph for an empty header or
 footer

Word reports a header or footer part without any block as damaged.
---
 docx-core/src/documents/mod.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index de4cfad..f4fe676 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -868,13 +868,30 @@ impl Docx {
     fn prepare_for_build(&mut self) -> bool {
         self.reset();
         let has_toc = self.expand_auto_tocs();
-        visit_document(&mut self.document, &mut CommentFiller);
+        self.fill_empty_stories();
         self.refresh_duplicate_para_ids();
         self.update_dependencies();
         self.reserve_para_ids();
         has_toc
     }
 
+    /// Gives headers, footers and comments without a paragraph an empty one.
+    fn fill_empty_stories(&mut self) {
+        visit_document(&mut self.document, &mut CommentFiller);
+        for (_, header) in self.document.headers_mut() {
+            if header.children.is_empty() {
+                let paragraph = Box::new(paragraph_without_id());
+                header.children.push(HeaderChild::Paragraph(paragraph));
+            }
+        }
+        for (_, footer) in self.document.footers_mut() {
+            if footer.children.is_empty() {
+                let paragraph = Box::new(paragraph_without_id());
+                footer.children.push(FooterChild::Paragraph(paragraph));
+            }
+        }
+    }
+
     /// Numbers the header and footer parts in the order in which they are written.
     ///
     /// Headers and footers can be set in any order, more than once, and before
@@ -1190,6 +1207,13 @@ impl DocumentTreeVisitor for CommentStore<'_> {
     }
 }
 
+/// Creates an empty paragraph whose id is chosen when all others are known.
+fn paragraph_without_id() -> Paragraph {
+    let mut paragraph = Paragraph::new();
+    paragraph.id.clear();
+    paragraph
+}
+
 /// Gives comments without any paragraph an empty one, which their replies can
 /// be linked to.
 struct CommentFiller;
@@ -1198,12 +1222,8 @@ impl DocumentTreeVisitor for CommentFiller {
     fn visit_comment_start(&mut self, comment: &mut CommentRangeStart) {
         let comment = &mut comment.comment;
         if last_para_id_in_comment(comment).is_none() {
-            // The id is chosen when all others are known.
-            let mut paragraph = Paragraph::new();
-            paragraph.id.clear();
-            comment
-                .children
-                .push(CommentChild::Paragraph(Box::new(paragraph)));
+            let paragraph = Box::new(paragraph_without_id());
+            comment.children.push(CommentChild::Paragraph(paragraph));
         }
     }
 }
-- 
2.43.0


From 2d8a3147c559942083bc8254e2bc6e05e68a306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:49:20 +0000
Subject: [PATCH 15/75] fix: keep paragraph ids of footnotes unique

Footnotes are collected after ids were checked, so their paragraphs could
repeat the id of a paragraph of the document.
---
 docx-core/src/documents/mod.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index f4fe676..ca0ed23 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1483,8 +1483,14 @@ fn collect_para_ids_in_move_to<'a>(moved: &'a MoveTo, counts: &mut HashMap<&'a s
 
 fn collect_para_ids_in_run<'a>(run: &'a Run, counts: &mut HashMap<&'a str, usize>) {
     for child in &run.children {
-        if let RunChild::CommentStart(c) = child {
-            collect_para_ids_in_comment(&c.comment, counts);
+        match child {
+            RunChild::CommentStart(c) => collect_para_ids_in_comment(&c.comment, counts),
+            RunChild::FootnoteReference(reference) => {
+                for paragraph in &reference.content {
+                    collect_para_ids_in_paragraph(paragraph, counts);
+                }
+            }
+            _ => {}
         }
     }
 }
@@ -1868,8 +1874,16 @@ fn refresh_para_ids_in_run(
     seen: &mut HashSet<String>,
 ) {
     for child in &mut run.children {
-        if let RunChild::CommentStart(c) = child {
-            refresh_para_ids_in_comment(&mut c.comment, duplicates, used, seen);
+        match child {
+            RunChild::CommentStart(c) => {
+                refresh_para_ids_in_comment(&mut c.comment, duplicates, used, seen)
+            }
+            RunChild::FootnoteReference(reference) => {
+                for paragraph in &mut reference.content {
+                    refresh_para_ids_in_paragraph(paragraph, duplicates, used, seen);
+                }
+            }
+            _ => {}
         }
     }
 }
-- 
2.43.0


From ccfd8dfd30438ef94cee16adb39770e18b060949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:51 +0000
Subject: [PATCH 16/75] fix: write negative picture offsets as negative numbers

---
 docx-core/src/documents/elements/drawing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/drawing.rs b/docx-core/src/documents/elements/drawing.rs
index c207d77..c0b9c57 100644
--- a/docx-core/src/documents/elements/drawing.rs
+++ b/docx-core/src/documents/elements/drawing.rs
@@ -95,7 +95,7 @@ impl BuildXML for Drawing {
 
                     match p.position_h {
                         DrawingPosition::Offset(x) => {
-                            let x = format!("{}", x as u32);
+                            let x = x.to_string();
                             b = b.pos_offset(&x)?.close()?;
                         }
                         DrawingPosition::Align(x) => {
@@ -107,7 +107,7 @@ impl BuildXML for Drawing {
 
                     match p.position_v {
                         DrawingPosition::Offset(y) => {
-                            let y = format!("{}", y as u32);
+                            let y = y.to_string();
                             b = b.pos_offset(&y)?.close()?;
                         }
                         DrawingPosition::Align(a) => {
-- 
2.43.0


From 642b185f4abaac287fdb9e26e08483eff0c62064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:02:12 +0000
Subject: [PATCH 17/75] fix: use the name outsideMargin for drawing positions

The horizontal position wrote a value Word does not know and neither
direction read the right one.
---
 docx-core/src/types/relative_from_type.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/types/relative_from_type.rs b/docx-core/src/types/relative_from_type.rs
index e877993..7b3e8fc 100644
--- a/docx-core/src/types/relative_from_type.rs
+++ b/docx-core/src/types/relative_from_type.rs
@@ -53,7 +53,7 @@ impl fmt::Display for RelativeFromHType {
             RelativeFromHType::InsideMargin => write!(f, "insideMargin"),
             RelativeFromHType::LeftMargin => write!(f, "leftMargin"),
             RelativeFromHType::Margin => write!(f, "margin"),
-            RelativeFromHType::OutsizeMargin => write!(f, "outsizeMargin"),
+            RelativeFromHType::OutsizeMargin => write!(f, "outsideMargin"),
             RelativeFromHType::Page => write!(f, "page"),
             RelativeFromHType::RightMargin => write!(f, "rightMargin"),
         }
@@ -69,7 +69,7 @@ impl FromStr for RelativeFromHType {
             "insideMargin" => Ok(RelativeFromHType::InsideMargin),
             "leftMargin" => Ok(RelativeFromHType::LeftMargin),
             "margin" => Ok(RelativeFromHType::Margin),
-            "outsizeMargin" => Ok(RelativeFromHType::OutsizeMargin),
+            "outsideMargin" | "outsizeMargin" => Ok(RelativeFromHType::OutsizeMargin),
             "page" => Ok(RelativeFromHType::Page),
             "rightMargin" => Ok(RelativeFromHType::RightMargin),
             _ => Ok(RelativeFromHType::Margin),
@@ -117,7 +117,7 @@ impl FromStr for RelativeFromVType {
             "insideMargin" => Ok(RelativeFromVType::InsideMargin),
             "line" => Ok(RelativeFromVType::Line),
             "margin" => Ok(RelativeFromVType::Margin),
-            "outsizeMargin" => Ok(RelativeFromVType::OutsizeMargin),
+            "outsideMargin" | "outsizeMargin" => Ok(RelativeFromVType::OutsizeMargin),
             "page" => Ok(RelativeFromVType::Page),
             "paragraph" => Ok(RelativeFromVType::Paragraph),
             "topMargin" => Ok(RelativeFromVType::TopMargin),
-- 
2.43.0


From d12c291518c0c10eb8b33afdf467396d57b1c845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:02:46 +0000
Subject: [PATCH 18/75] fix: write simplePos and allowOverlap of a picture to
 their own attributes

---
 docx-core/src/documents/elements/drawing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/drawing.rs b/docx-core/src/documents/elements/drawing.rs
index c0b9c57..c0c63ad 100644
--- a/docx-core/src/documents/elements/drawing.rs
+++ b/docx-core/src/documents/elements/drawing.rs
@@ -80,8 +80,8 @@ impl BuildXML for Drawing {
                             &format!("{}", p.dist_b),
                             &format!("{}", p.dist_l),
                             &format!("{}", p.dist_r),
-                            "0",
                             if p.simple_pos { "1" } else { "0" },
+                            if p.allow_overlap { "1" } else { "0" },
                             "0",
                             "0",
                             if p.layout_in_cell { "1" } else { "0" },
-- 
2.43.0


From 5523cf2a1d624db405f5c578a5bfd73dc8154b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:05:26 +0000
Subject: [PATCH 19/75] fix: do not store pictures under names that differ in
 case only

---
 docx-core/src/documents/image_collector.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index 047520b..3377a98 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -37,7 +37,8 @@ impl MediaRegistry {
     /// Reused picture IDs are checked before calculating a content fingerprint;
     /// byte equality still protects callers that reuse an ID for new content.
     fn register(&mut self, preferred_id: &str, bytes: Vec<u8>) -> usize {
-        if let Some(index) = self.media_by_id.get(preferred_id).copied() {
+        let key = preferred_id.to_lowercase();
+        if let Some(index) = self.media_by_id.get(&key).copied() {
             if self.media[index].1 == bytes {
                 return index;
             }
@@ -59,8 +60,10 @@ impl MediaRegistry {
 
         let media_id = self.unique_media_id(preferred_id);
         let index = self.media.len();
-        self.media.push((media_id.clone(), bytes));
-        self.media_by_id.insert(media_id, index);
+        // Part names that differ in case only name the same part.
+        let key = media_id.to_lowercase();
+        self.media.push((media_id, bytes));
+        self.media_by_id.insert(key, index);
         self.by_fingerprint
             .entry(fingerprint)
             .or_default()
@@ -84,7 +87,7 @@ impl MediaRegistry {
     /// next suffix keeps a run of such collisions linear while still checking
     /// explicitly registered suffixed IDs.
     fn unique_media_id(&mut self, preferred_id: &str) -> String {
-        if !self.media_by_id.contains_key(preferred_id) {
+        if !self.media_by_id.contains_key(&preferred_id.to_lowercase()) {
             return preferred_id.to_owned();
         }
 
@@ -98,7 +101,7 @@ impl MediaRegistry {
             *suffix = suffix
                 .checked_add(1)
                 .expect("the media ID suffix space should not be exhausted");
-            if !media_by_id.contains_key(&candidate) {
+            if !media_by_id.contains_key(&candidate.to_lowercase()) {
                 return candidate;
             }
         }
-- 
2.43.0


From cf4b96c6f19327570057fcf279f5c70316f5c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:09 +0000
Subject: [PATCH 20/75] fix: read tables of comments

---
 docx-core/src/reader/comment.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index e42ef42..552588a 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -25,9 +25,16 @@ impl ElementReader for Comment {
                 }) => {
                     let e = XMLElement::from_str(&name.local_name)
                         .expect("should convert to XMLElement");
-                    if let XMLElement::Paragraph = e {
-                        let p = Paragraph::read(r, &attributes)?;
-                        comment = comment.add_paragraph(p);
+                    match e {
+                        XMLElement::Paragraph => {
+                            let p = Paragraph::read(r, &attributes)?;
+                            comment = comment.add_paragraph(p);
+                        }
+                        XMLElement::Table => {
+                            let t = Table::read(r, &attributes)?;
+                            comment = comment.add_table(t);
+                        }
+                        _ => {}
                     }
                 }
                 Ok(XmlEvent::EndElement { name, .. }) => {
-- 
2.43.0


From 536a09b6b7bce9095ce75c52620973ac1689a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:18 +0000
Subject: [PATCH 21/75] fix: keep images that cannot be previewed when reading

---
 docx-core/src/documents/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index ca0ed23..f8d1283 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -356,12 +356,16 @@ impl Docx {
         if let Ok(dimg) = image::load_from_memory(&buf) {
             let mut png = std::io::Cursor::new(vec![]);
             // For now only png supported
-            dimg.write_to(&mut png, image::ImageFormat::Png)
-                .expect("Unable to write dynamic image");
-
-            self.images
-                .push((id.into(), path, Image(buf), Png(png.into_inner())));
+            if dimg.write_to(&mut png, image::ImageFormat::Png).is_ok() {
+                self.images
+                    .push((id.into(), path, Image(buf), Png(png.into_inner())));
+                return self;
+            }
         }
+
+        // The image has no preview.
+        self.images
+            .push((id.into(), path, Image(buf), Png(Vec::new())));
         self
     }
 
-- 
2.43.0


From f60d15cab6f0f092fc9fb5b6405e325f2052135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:36:50 +0000
Subject: [PATCH 22/75] fix: write the end of a comment between blocks inside a
 paragraph

---
 docx-core/src/documents/mod.rs | 43 ++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index f8d1283..7f0e65c 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -873,6 +873,7 @@ impl Docx {
         self.reset();
         let has_toc = self.expand_auto_tocs();
         self.fill_empty_stories();
+        self.end_comments_in_paragraphs();
         self.refresh_duplicate_para_ids();
         self.update_dependencies();
         self.reserve_para_ids();
@@ -896,6 +897,48 @@ impl Docx {
         }
     }
 
+    /// Moves the ends of comments between blocks into the paragraph before them.
+    ///
+    /// The end of a comment is written with a run, which only a paragraph can hold.
+    fn end_comments_in_paragraphs(&mut self) {
+        fn with_end(end: CommentRangeEnd) -> Box<Paragraph> {
+            let mut paragraph = paragraph_without_id();
+            paragraph.children.push(ParagraphChild::CommentEnd(end));
+            Box::new(paragraph)
+        }
+
+        let children = std::mem::take(&mut self.document.children);
+        for child in children {
+            match (child, self.document.children.last_mut()) {
+                (DocumentChild::CommentEnd(end), Some(DocumentChild::Paragraph(paragraph))) => {
+                    paragraph.children.push(ParagraphChild::CommentEnd(end));
+                }
+                (DocumentChild::CommentEnd(end), _) => {
+                    let paragraph = DocumentChild::Paragraph(with_end(end));
+                    self.document.children.push(paragraph);
+                }
+                (DocumentChild::Section(mut section), _) => {
+                    let children = std::mem::take(&mut section.children);
+                    for child in children {
+                        match (child, section.children.last_mut()) {
+                            (
+                                SectionChild::CommentEnd(end),
+                                Some(SectionChild::Paragraph(paragraph)),
+                            ) => paragraph.children.push(ParagraphChild::CommentEnd(end)),
+                            (SectionChild::CommentEnd(end), _) => {
+                                let paragraph = SectionChild::Paragraph(with_end(end));
+                                section.children.push(paragraph);
+                            }
+                            (child, _) => section.children.push(child),
+                        }
+                    }
+                    self.document.children.push(DocumentChild::Section(section));
+                }
+                (child, _) => self.document.children.push(child),
+            }
+        }
+    }
+
     /// Numbers the header and footer parts in the order in which they are written.
     ///
     /// Headers and footers can be set in any order, more than once, and before
-- 
2.43.0


From 431643a1fba2e3c2c37b4f9bebd3cd611a3a61fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:42:36 +0000
Subject: [PATCH 23/75] fix: let picture relationship ids stand for the same
 image in every part

---
 docx-core/src/documents/image_collector.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index 3377a98..5c6f561 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -26,6 +26,9 @@ pub(crate) struct MediaRegistry {
     media_by_id: HashMap<String, usize>,
     by_fingerprint: HashMap<(usize, u32), Vec<usize>>,
     next_suffix_by_id: HashMap<String, usize>,
+    /// Media behind the relationship IDs of all parts. Readers look images up
+    /// by these IDs alone, so an ID stands for the same media in every part.
+    media_by_relationship_id: HashMap<String, usize>,
 }
 
 impl MediaRegistry {
@@ -167,9 +170,15 @@ impl<'a> PackagePartCollector<'a> {
     ///
     /// Repeated preferred IDs use the next unchecked suffix instead of
     /// restarting at `_2`, while explicit suffixed IDs are still skipped.
-    fn unique_relationship_id(&mut self, preferred_id: &str) -> String {
+    fn unique_relationship_id(&mut self, preferred_id: &str, media: Option<usize>) -> String {
+        let used_elsewhere = &self.registry.media_by_relationship_id;
+        let is_free = |id: &str| match used_elsewhere.get(id) {
+            Some(known) => media.is_none() || media == Some(*known),
+            None => true,
+        };
         if !self.relationship_ids.contains(preferred_id)
             && !has_reserved_document_prefix(preferred_id)
+            && is_free(preferred_id)
         {
             return preferred_id.to_owned();
         }
@@ -187,7 +196,7 @@ impl<'a> PackagePartCollector<'a> {
             *suffix = suffix
                 .checked_add(1)
                 .expect("the relationship ID suffix space should not be exhausted");
-            if !relationship_ids.contains(&candidate) {
+            if !relationship_ids.contains(&candidate) && is_free(&candidate) {
                 return candidate;
             }
         }
@@ -209,7 +218,11 @@ impl DocumentTreeVisitor for PackagePartCollector<'_> {
             return;
         }
 
-        let relationship_id = self.unique_relationship_id(&preferred_relationship_id);
+        let relationship_id =
+            self.unique_relationship_id(&preferred_relationship_id, Some(media_index));
+        self.registry
+            .media_by_relationship_id
+            .insert(relationship_id.clone(), media_index);
         let target = format!("media/{}.png", self.registry.media_id(media_index));
         let relationship_index = self.relationships.len();
         self.relationship_ids.insert(relationship_id.clone());
@@ -239,7 +252,7 @@ impl DocumentTreeVisitor for PackagePartCollector<'_> {
         {
             return;
         }
-        *rid = self.unique_relationship_id(rid);
+        *rid = self.unique_relationship_id(rid, None);
         self.relationship_ids.insert(rid.clone());
         self.hyperlinks.push((rid.clone(), path.clone()));
     }
-- 
2.43.0


From 298d228c2a981fa547cb5e16f932b7cb231d565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:27 +0000
Subject: [PATCH 24/75] fix: write complex script bold and italic as off when
 they are disabled

---
 docx-core/src/documents/elements/bold_cs.rs   |  6 +++++-
 docx-core/src/documents/elements/italic_cs.rs |  6 +++++-
 docx-core/src/xml_builder/elements.rs         | 12 ++++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/bold_cs.rs b/docx-core/src/documents/elements/bold_cs.rs
index 5e20da8..6a1e505 100644
--- a/docx-core/src/documents/elements/bold_cs.rs
+++ b/docx-core/src/documents/elements/bold_cs.rs
@@ -39,6 +39,10 @@ impl BuildXML for BoldCs {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).b_cs()?.into_inner()
+        if self.val {
+            XMLBuilder::from(stream).b_cs()?.into_inner()
+        } else {
+            XMLBuilder::from(stream).disable_bold_cs()?.into_inner()
+        }
     }
 }
diff --git a/docx-core/src/documents/elements/italic_cs.rs b/docx-core/src/documents/elements/italic_cs.rs
index 6e8c804..fb98422 100644
--- a/docx-core/src/documents/elements/italic_cs.rs
+++ b/docx-core/src/documents/elements/italic_cs.rs
@@ -40,6 +40,10 @@ impl BuildXML for ItalicCs {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).i_cs()?.into_inner()
+        if self.val {
+            XMLBuilder::from(stream).i_cs()?.into_inner()
+        } else {
+            XMLBuilder::from(stream).disable_italic_cs()?.into_inner()
+        }
     }
 }
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index f1aed6d..96eac4b 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -189,6 +189,12 @@ impl<W: Write> XMLBuilder<W> {
             .close()
     }
 
+    pub(crate) fn disable_bold_cs(self) -> Result<Self> {
+        let f = "false";
+        self.write(XmlEvent::start_element("w:bCs").attr("w:val", f))?
+            .close()
+    }
+
     closed_with_str!(caps, "w:caps");
 
     closed!(i, "w:i");
@@ -200,6 +206,12 @@ impl<W: Write> XMLBuilder<W> {
             .close()
     }
 
+    pub(crate) fn disable_italic_cs(self) -> Result<Self> {
+        let f = "false";
+        self.write(XmlEvent::start_element("w:iCs").attr("w:val", f))?
+            .close()
+    }
+
     closed!(strike, "w:strike");
 
     pub(crate) fn disable_strike(self) -> Result<Self> {
-- 
2.43.0


From e409cfab588bcfffa362d4ee4c45e72759ab5abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:27 +0000
Subject: [PATCH 25/75] fix: read the spacing of text borders

---
 docx-core/src/reader/run_property.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index 187f50d..c15cdfa 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -175,6 +175,9 @@ impl ElementReader for RunProperty {
                                 if let Some(size) = attr.size {
                                     border = border.size(size as usize);
                                 };
+                                if let Some(space) = attr.space {
+                                    border = border.space(space as usize);
+                                };
                                 rp = rp.text_border(border);
                                 continue;
                             }
-- 
2.43.0


From 3d70dc4ef598344e938ba6c24c928a278949ba4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:27 +0000
Subject: [PATCH 26/75] fix: read what a positional tab is relative to

---
 docx-core/src/reader/positional_tab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/reader/positional_tab.rs b/docx-core/src/reader/positional_tab.rs
index 9f9cf1e..a66831e 100644
--- a/docx-core/src/reader/positional_tab.rs
+++ b/docx-core/src/reader/positional_tab.rs
@@ -36,7 +36,7 @@ fn read_alignment(
 fn read_relative_to(attributes: &[OwnedAttribute]) -> Result<PositionalTabRelativeTo, ReaderError> {
     for a in attributes {
         let local_name = &a.name.local_name;
-        if local_name == "alignment" {
+        if local_name == "relativeTo" {
             let v = a.value.to_owned();
             if let Ok(t) = PositionalTabRelativeTo::from_str(&v) {
                 return Ok(t);
-- 
2.43.0


From 92a75a9f9b1c3efc361835f00c840cba3e22c566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:27 +0000
Subject: [PATCH 27/75] fix: write the padding of frames under the names
 readers know

---
 docx-core/src/xml_builder/elements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 96eac4b..356bcee 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -659,10 +659,10 @@ impl<W: Write> XMLBuilder<W> {
             w = w.attr_display("w:y", y);
         }
         if let Some(h_space) = prop.h_space {
-            w = w.attr_display("w:h_space", h_space);
+            w = w.attr_display("w:hSpace", h_space);
         }
         if let Some(v_space) = prop.v_space {
-            w = w.attr_display("w:v_space", v_space);
+            w = w.attr_display("w:vSpace", v_space);
         }
         if let Some(width) = prop.w {
             w = w.attr_display("w:w", width);
-- 
2.43.0


From 6c9d7e977c6666943d1ecc1ae14c20ce0ff2b240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:28 +0000
Subject: [PATCH 28/75] fix: keep paragraph settings that are switched off when
 writing and reading

---
 .../documents/elements/paragraph_property.rs  | 35 ++++++++++++++++---
 docx-core/src/reader/paragraph_property.rs    | 12 ++-----
 docx-core/src/xml_builder/elements.rs         | 27 ++++++++++++++
 3 files changed, 61 insertions(+), 13 deletions(-)

diff --git a/docx-core/src/documents/elements/paragraph_property.rs b/docx-core/src/documents/elements/paragraph_property.rs
index 29dfdca..728a43f 100644
--- a/docx-core/src/documents/elements/paragraph_property.rs
+++ b/docx-core/src/documents/elements/paragraph_property.rs
@@ -240,10 +240,37 @@ impl BuildXML for ParagraphProperty {
             .add_optional_child(&self.text_alignment)?
             .add_optional_child(&self.adjust_right_ind)?
             .apply_opt(self.snap_to_grid, |v, b| b.snap_to_grid(v))?
-            .apply_if(self.keep_next, |b| b.keep_next())?
-            .apply_if(self.keep_lines, |b| b.keep_lines())?
-            .apply_if(self.page_break_before, |b| b.page_break_before())?
-            .apply_if(self.bidi, |b| b.bidi())?
+            .apply_opt(self.keep_next, |flag, b| {
+                if flag {
+                    b.keep_next()
+                } else {
+                    b.disable_keep_next()
+                }
+            })?
+            .apply_opt(self.keep_lines, |flag, b| {
+                if flag {
+                    b.keep_lines()
+                } else {
+                    b.disable_keep_lines()
+                }
+            })?
+            .apply_opt(self.page_break_before, |flag, b| {
+                if flag {
+                    b.page_break_before()
+                } else {
+                    b.disable_page_break_before()
+                }
+            })?
+            .apply_opt(
+                self.bidi,
+                |flag, b| {
+                    if flag {
+                        b.bidi()
+                    } else {
+                        b.disable_bidi()
+                    }
+                },
+            )?
             .apply_opt(self.widow_control, |flag, b| {
                 b.widow_control(if flag { "1" } else { "0" })
             })?
diff --git a/docx-core/src/reader/paragraph_property.rs b/docx-core/src/reader/paragraph_property.rs
index 361450c..9027246 100644
--- a/docx-core/src/reader/paragraph_property.rs
+++ b/docx-core/src/reader/paragraph_property.rs
@@ -96,19 +96,13 @@ impl ElementReader for ParagraphProperty {
                             p.snap_to_grid = Some(v);
                         }
                         XMLElement::KeepNext => {
-                            if read_bool(&attributes) {
-                                p.keep_next = Some(true);
-                            }
+                            p.keep_next = Some(read_bool(&attributes));
                         }
                         XMLElement::KeepLines => {
-                            if read_bool(&attributes) {
-                                p.keep_lines = Some(true);
-                            }
+                            p.keep_lines = Some(read_bool(&attributes));
                         }
                         XMLElement::PageBreakBefore => {
-                            if read_bool(&attributes) {
-                                p.page_break_before = Some(true);
-                            }
+                            p.page_break_before = Some(read_bool(&attributes));
                         }
                         XMLElement::WidowControl => {
                             if read_bool(&attributes) {
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 356bcee..28c58e0 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -535,10 +535,37 @@ impl<W: Write> XMLBuilder<W> {
     );
 
     closed!(keep_next, "w:keepNext");
+
+    pub(crate) fn disable_keep_next(self) -> Result<Self> {
+        let f = "false";
+        self.write(XmlEvent::start_element("w:keepNext").attr("w:val", f))?
+            .close()
+    }
+
     closed!(keep_lines, "w:keepLines");
+
+    pub(crate) fn disable_keep_lines(self) -> Result<Self> {
+        let f = "false";
+        self.write(XmlEvent::start_element("w:keepLines").attr("w:val", f))?
+            .close()
+    }
+
     closed!(page_break_before, "w:pageBreakBefore");
+
+    pub(crate) fn disable_page_break_before(self) -> Result<Self> {
+        let f = "false";
+        self.write(XmlEvent::start_element("w:pageBreakBefore").attr("w:val", f))?
+            .close()
+    }
+
     closed!(widow_control, "w:widowControl", "w:val");
     closed!(bidi, "w:bidi");
+
+    pub(crate) fn disable_bidi(self) -> Result<Self> {
+        let f = "false";
+        self.write(XmlEvent::start_element("w:bidi").attr("w:val", f))?
+            .close()
+    }
     /*
     <w:lvlOverride w:ilvl="0">
       <w:startOverride w:val="1"/>
-- 
2.43.0


From cf556eea79bf498f549f247a2ca8cfea7a6b1b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:28 +0000
Subject: [PATCH 29/75] fix: read the direction of paragraphs

---
 docx-core/src/reader/paragraph_property.rs | 5 +++++
 docx-core/src/reader/xml_element.rs        | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/docx-core/src/reader/paragraph_property.rs b/docx-core/src/reader/paragraph_property.rs
index 9027246..f51faf3 100644
--- a/docx-core/src/reader/paragraph_property.rs
+++ b/docx-core/src/reader/paragraph_property.rs
@@ -109,6 +109,11 @@ impl ElementReader for ParagraphProperty {
                                 p.widow_control = Some(true);
                             }
                         }
+                        XMLElement::Bidi => {
+                            if read_bool(&attributes) {
+                                p.bidi = Some(true);
+                            }
+                        }
                         XMLElement::ParagraphPropertyChange => {
                             if let Ok(ppr_change) = ParagraphPropertyChange::read(r, &attributes) {
                                 p.paragraph_property_change = Some(ppr_change);
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 2f7c335..593dbe7 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -62,6 +62,7 @@ pub enum XMLElement {
     KeepLines,
     PageBreakBefore,
     WidowControl,
+    Bidi,
     DivId,
     Div,
     DivsChild,
@@ -422,6 +423,7 @@ impl FromStr for XMLElement {
             "keepNext" => Ok(XMLElement::KeepNext),
             "keepLines" => Ok(XMLElement::KeepLines),
             "pageBreakBefore" => Ok(XMLElement::PageBreakBefore),
+            "bidi" => Ok(XMLElement::Bidi),
             "widowControl" => Ok(XMLElement::WidowControl),
             "headerReference" => Ok(XMLElement::HeaderReference),
             "footerReference" => Ok(XMLElement::FooterReference),
-- 
2.43.0


From 41f8525223f5e74a3f9794dd4637064a47cd29c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:28 +0000
Subject: [PATCH 30/75] fix: write hanging and first line indents given in
 characters

---
 docx-core/src/documents/elements/indent.rs | 2 ++
 docx-core/src/xml_builder/elements.rs      | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/docx-core/src/documents/elements/indent.rs b/docx-core/src/documents/elements/indent.rs
index 6cf53c7..f25a278 100644
--- a/docx-core/src/documents/elements/indent.rs
+++ b/docx-core/src/documents/elements/indent.rs
@@ -62,6 +62,8 @@ impl BuildXML for Indent {
                 self.special_indent,
                 self.end.unwrap_or_default(),
                 self.start_chars,
+                self.hanging_chars,
+                self.first_line_chars,
             )?
             .into_inner()
     }
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 28c58e0..4ab0193 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -286,6 +286,8 @@ impl<W: Write> XMLBuilder<W> {
         special_indent: Option<SpecialIndentType>,
         end: i32,
         start_chars: Option<i32>,
+        hanging_chars: Option<i32>,
+        first_line_chars: Option<i32>,
     ) -> Result<Self> {
         let mut base = XmlEvent::start_element("w:ind")
             .attr_display("w:left", start.unwrap_or(0))
@@ -294,6 +296,12 @@ impl<W: Write> XMLBuilder<W> {
         if let Some(start_chars) = start_chars {
             base = base.attr_display("w:leftChars", start_chars);
         }
+        if let Some(hanging_chars) = hanging_chars {
+            base = base.attr_display("w:hangingChars", hanging_chars);
+        }
+        if let Some(first_line_chars) = first_line_chars {
+            base = base.attr_display("w:firstLineChars", first_line_chars);
+        }
 
         match special_indent {
             Some(SpecialIndentType::FirstLine(v)) => {
-- 
2.43.0


From 92c139a3eebaf5ec9e31a49e949396c6c9e703b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:28 +0000
Subject: [PATCH 31/75] fix: write justified alignment with a value readers
 know

---
 docx-core/src/types/alignment_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/types/alignment_type.rs b/docx-core/src/types/alignment_type.rs
index ff80e28..6091e0d 100644
--- a/docx-core/src/types/alignment_type.rs
+++ b/docx-core/src/types/alignment_type.rs
@@ -32,7 +32,7 @@ impl fmt::Display for AlignmentType {
             AlignmentType::Start => write!(f, "start"),
             AlignmentType::End => write!(f, "end"),
             AlignmentType::Both => write!(f, "both"),
-            AlignmentType::Justified => write!(f, "justified"),
+            AlignmentType::Justified => write!(f, "both"),
         }
     }
 }
-- 
2.43.0


From e79ff42bbf790d884fcd260a962b2ff96c3492ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:28 +0000
Subject: [PATCH 32/75] fix: do not read text as hidden when hiding is switched
 off

---
 docx-core/src/reader/run_property.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index c15cdfa..85dc185 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -165,8 +165,16 @@ impl ElementReader for RunProperty {
                                 rp = rp.shading(shd);
                             }
                         }
-                        XMLElement::Vanish => rp = rp.vanish(),
-                        XMLElement::SpecVanish => rp = rp.spec_vanish(),
+                        XMLElement::Vanish => {
+                            if read_bool(&attributes) {
+                                rp = rp.vanish();
+                            }
+                        }
+                        XMLElement::SpecVanish => {
+                            if read_bool(&attributes) {
+                                rp = rp.spec_vanish();
+                            }
+                        }
                         XMLElement::TextBorder => {
                             if let Ok(attr) = read_border(&attributes) {
                                 let mut border = TextBorder::new()
-- 
2.43.0


From 400cedc02ea702c6b0a2f3a2198f02ef96cb8268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:28 +0000
Subject: [PATCH 33/75] fix: write the columns a table row leaves out at its
 ends

---
 docx-core/src/documents/elements/table_row_property.rs | 10 +++++++++-
 docx-core/src/xml_builder/elements.rs                  |  5 +++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/table_row_property.rs b/docx-core/src/documents/elements/table_row_property.rs
index ee68ed8..eaf7e50 100644
--- a/docx-core/src/documents/elements/table_row_property.rs
+++ b/docx-core/src/documents/elements/table_row_property.rs
@@ -3,7 +3,7 @@ use std::io::Write;
 
 use super::*;
 use crate::xml_builder::*;
-use crate::{documents::BuildXML, HeightRule};
+use crate::{documents::BuildXML, HeightRule, WidthType};
 
 #[derive(Debug, Clone, PartialEq, Serialize, Default)]
 #[serde(rename_all = "camelCase")]
@@ -82,6 +82,14 @@ impl BuildXML for TableRowProperty {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
             .open_table_row_property()?
+            .apply_opt(self.grid_before, |v, b| b.grid_before(v as usize))?
+            .apply_opt(self.grid_after, |v, b| b.grid_after(v as usize))?
+            .apply_opt(self.width_before, |w, b| {
+                b.width_before(&format!("{w}"), &WidthType::Dxa.to_string())
+            })?
+            .apply_opt(self.width_after, |w, b| {
+                b.width_after(&format!("{w}"), &WidthType::Dxa.to_string())
+            })?
             .add_optional_child(&self.del)?
             .add_optional_child(&self.ins)?
             .add_optional_child(&self.cant_split)?
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 4ab0193..eebbc45 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -470,6 +470,11 @@ impl<W: Write> XMLBuilder<W> {
         "w:author",
         "w:date"
     );
+    // cells left out before and after the cells of a table row
+    closed_with_usize!(grid_before, "w:gridBefore");
+    closed_with_usize!(grid_after, "w:gridAfter");
+    closed!(width_before, "w:wBefore", "w:w", "w:type");
+    closed!(width_after, "w:wAfter", "w:w", "w:type");
     // cantSplit for table row
     closed!(cant_split, "w:cantSplit");
 
-- 
2.43.0


From b60dae836496eadc5cc7cf72788f3cc7025e39ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:28 +0000
Subject: [PATCH 34/75] fix: read whether a table row may break across pages

---
 docx-core/src/reader/table_row.rs   | 8 ++++++++
 docx-core/src/reader/xml_element.rs | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/docx-core/src/reader/table_row.rs b/docx-core/src/reader/table_row.rs
index ff49f12..e3a3d33 100644
--- a/docx-core/src/reader/table_row.rs
+++ b/docx-core/src/reader/table_row.rs
@@ -17,6 +17,7 @@ impl ElementReader for TableRow {
         let mut del = None;
         let mut ins = None;
         let mut height_rule = None;
+        let mut cant_split = false;
         loop {
             let e = r.next_event();
             match e {
@@ -67,6 +68,9 @@ impl ElementReader for TableRow {
                                 }
                             }
                         }
+                        XMLElement::CantSplit => {
+                            cant_split = read_bool(&attributes);
+                        }
                         XMLElement::Delete => {
                             if let Ok(d) = Delete::read(r, &attributes) {
                                 del = Some(d);
@@ -108,6 +112,10 @@ impl ElementReader for TableRow {
                             row = row.height_rule(height_rule);
                         }
 
+                        if cant_split {
+                            row = row.cant_split();
+                        }
+
                         if let Some(del) = del {
                             row = row.delete(del);
                         }
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 593dbe7..6f5c6e3 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -86,6 +86,7 @@ pub enum XMLElement {
     Strike,
     Dstrike,
     TextDirection,
+    CantSplit,
     Table,
     TableProperty,
     TableRow,
@@ -337,6 +338,7 @@ impl FromStr for XMLElement {
             "wAfter" => Ok(XMLElement::WidthAfter),
             "gridBefore" => Ok(XMLElement::GridBefore),
             "wBefore" => Ok(XMLElement::WidthBefore),
+            "cantSplit" => Ok(XMLElement::CantSplit),
             "textDirection" => Ok(XMLElement::TextDirection),
             "tblW" => Ok(XMLElement::TableWidth),
             "tblInd" => Ok(XMLElement::TableIndent),
-- 
2.43.0


From b65cc13abe574607caff6877d2dfcc6602db03db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:28 +0000
Subject: [PATCH 35/75] fix: read the layout of tables

---
 docx-core/src/reader/table_property.rs | 10 ++++++++--
 docx-core/src/reader/xml_element.rs    |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/table_property.rs b/docx-core/src/reader/table_property.rs
index aeca707..b10a2c2 100644
--- a/docx-core/src/reader/table_property.rs
+++ b/docx-core/src/reader/table_property.rs
@@ -1,11 +1,10 @@
 use std::io::Read;
 use std::str::FromStr;
 
-use crate::TableAlignmentType;
+use crate::{TableAlignmentType, TableLayoutType};
 
 use super::*;
 
-// TODO: layout: Option<TableLayout>,
 impl ElementReader for TableProperty {
     fn read<R: Read>(
         r: &mut EventReader<R>,
@@ -48,6 +47,13 @@ impl ElementReader for TableProperty {
                                 }
                             }
                         }
+                        XMLElement::TableLayout => {
+                            if let Some(v) = read(&attributes, "type") {
+                                if let Ok(v) = TableLayoutType::from_str(&v) {
+                                    tp = tp.layout(v);
+                                }
+                            }
+                        }
                         XMLElement::TableStyle => {
                             if let Some(s) = read_val(&attributes) {
                                 tp = tp.style(s);
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 6f5c6e3..73e1f81 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -99,6 +99,7 @@ pub enum XMLElement {
     TableVMerge,
     TableGridSpan,
     TableWidth,
+    TableLayout,
     TableIndent,
     TableBorders,
     TableCellMargin,
@@ -341,6 +342,7 @@ impl FromStr for XMLElement {
             "cantSplit" => Ok(XMLElement::CantSplit),
             "textDirection" => Ok(XMLElement::TextDirection),
             "tblW" => Ok(XMLElement::TableWidth),
+            "tblLayout" => Ok(XMLElement::TableLayout),
             "tblInd" => Ok(XMLElement::TableIndent),
             "tblBorders" => Ok(XMLElement::TableBorders),
             "tblCellMar" => Ok(XMLElement::TableCellMargin),
-- 
2.43.0


From 9cc7c19fad69f7541e99565f741c4423ea1c0ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:28 +0000
Subject: [PATCH 36/75] fix: read the number of columns of a section

---
 docx-core/src/reader/section_property.rs | 7 +++++++
 docx-core/src/reader/xml_element.rs      | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/docx-core/src/reader/section_property.rs b/docx-core/src/reader/section_property.rs
index fc53e8f..57e4e4a 100644
--- a/docx-core/src/reader/section_property.rs
+++ b/docx-core/src/reader/section_property.rs
@@ -157,6 +157,13 @@ impl ElementReader for SectionProperty {
                                 }
                             }
                         }
+                        XMLElement::Columns => {
+                            if let Some(num) = read(&attributes, "num") {
+                                if let Ok(num) = usize::from_str(&num) {
+                                    sp.columns = num;
+                                }
+                            }
+                        }
                         XMLElement::TitlePg => sp = sp.title_pg(),
                         _ => {}
                     }
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 73e1f81..384e4f6 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -164,6 +164,7 @@ pub enum XMLElement {
     CharacterSpacingControl,
     SectionProperty,
     PageSize,
+    Columns,
     PageMargin,
     WebSettings,
     HeaderReference,
@@ -405,6 +406,7 @@ impl FromStr for XMLElement {
             "docVar" => Ok(XMLElement::DocVar),
             "docVars" => Ok(XMLElement::DocVars),
             "sectPr" => Ok(XMLElement::SectionProperty),
+            "cols" => Ok(XMLElement::Columns),
             "pgSz" => Ok(XMLElement::PageSize),
             "rFonts" => Ok(XMLElement::RunFonts),
             "pgMar" => Ok(XMLElement::PageMargin),
-- 
2.43.0


From cc1b5251ce37f5be2301dce8e44bc6d54afb9e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:28 +0000
Subject: [PATCH 37/75] fix: read the text direction of sections

---
 docx-core/src/reader/section_property.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/docx-core/src/reader/section_property.rs b/docx-core/src/reader/section_property.rs
index 57e4e4a..35751fd 100644
--- a/docx-core/src/reader/section_property.rs
+++ b/docx-core/src/reader/section_property.rs
@@ -164,6 +164,11 @@ impl ElementReader for SectionProperty {
                                 }
                             }
                         }
+                        XMLElement::TextDirection => {
+                            if let Some(val) = read_val(&attributes) {
+                                sp = sp.text_direction(val);
+                            }
+                        }
                         XMLElement::TitlePg => sp = sp.title_pg(),
                         _ => {}
                     }
-- 
2.43.0


From 4836fb3ec7d5890c568183438c55ef996f57632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:28 +0000
Subject: [PATCH 38/75] fix: do not read a title page that is switched off

---
 docx-core/src/reader/section_property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/reader/section_property.rs b/docx-core/src/reader/section_property.rs
index 35751fd..6c3033b 100644
--- a/docx-core/src/reader/section_property.rs
+++ b/docx-core/src/reader/section_property.rs
@@ -169,7 +169,7 @@ impl ElementReader for SectionProperty {
                                 sp = sp.text_direction(val);
                             }
                         }
-                        XMLElement::TitlePg => sp = sp.title_pg(),
+                        XMLElement::TitlePg => sp.title_pg = read_bool(&attributes),
                         _ => {}
                     }
                 }
-- 
2.43.0


From 3787ee3a699f6a5611de55e611987a32365daee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:28 +0000
Subject: [PATCH 39/75] fix: keep the page orientation when the page size is
 set

---
 docx-core/src/documents/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 7f0e65c..835fb8b 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -655,7 +655,8 @@ impl Docx {
     }
 
     pub fn page_size(mut self, w: u32, h: u32) -> Self {
-        self.document = self.document.page_size(PageSize::new().size(w, h));
+        let size = self.document.section_property.page_size.clone();
+        self.document = self.document.page_size(size.size(w, h));
         self
     }
 
-- 
2.43.0


From cb84c8acd2cbb4b34dd8505ebc92d8684641c216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:28 +0000
Subject: [PATCH 40/75] fix: write character spacing control beside the
 compatibility settings, not among them

---
 docx-core/src/documents/settings.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/documents/settings.rs b/docx-core/src/documents/settings.rs
index 74c5e29..dd412cc 100644
--- a/docx-core/src/documents/settings.rs
+++ b/docx-core/src/documents/settings.rs
@@ -80,15 +80,15 @@ impl BuildXML for Settings {
             .open_settings()?
             .add_child(&self.default_tab_stop)?
             .add_child(&self.zoom)?
+            .apply_opt(self.character_spacing_control, |v, b| {
+                b.character_spacing_control(&v.to_string())
+            })?
             .open_compat()?
             .space_for_ul()?
             .balance_single_byte_double_byte_width()?
             .do_not_leave_backslash_alone()?
             .ul_trail_space()?
             .do_not_expand_shift_return()?
-            .apply_opt(self.character_spacing_control, |v, b| {
-                b.character_spacing_control(&v.to_string())
-            })?
             .apply_if(self.adjust_line_height_in_table, |b| {
                 b.adjust_line_height_table()
             })?
-- 
2.43.0


From 97d81e059a619c3a661acdf29edb84f9315bc8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:34:24 +0000
Subject: [PATCH 41/75] fix: read single and double strikethrough independently

---
 docx-core/src/reader/run_property.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index 85dc185..e109460 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -109,18 +109,18 @@ impl ElementReader for RunProperty {
                         }
                         XMLElement::Highlight => rp = rp.highlight(attributes[0].value.clone()),
                         XMLElement::Strike => {
-                            if !read_bool(&attributes) {
-                                rp.strike = Some(Strike::new().disable());
-                                continue;
-                            }
-                            rp = rp.strike();
+                            rp.strike = Some(if read_bool(&attributes) {
+                                Strike::new()
+                            } else {
+                                Strike::new().disable()
+                            });
                         }
                         XMLElement::Dstrike => {
-                            if !read_bool(&attributes) {
-                                rp.dstrike = Some(Dstrike::new().disable());
-                                continue;
-                            }
-                            rp = rp.dstrike();
+                            rp.dstrike = Some(if read_bool(&attributes) {
+                                Dstrike::new()
+                            } else {
+                                Dstrike::new().disable()
+                            });
                         }
                         XMLElement::VertAlign => {
                             if let Ok(v) = VertAlignType::from_str(&attributes[0].value) {
-- 
2.43.0


From 40096d55736731db0e2b8e727b2a6c44c95c8544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:51:32 +0000
Subject: [PATCH 42/75] fix: write the style links of abstract numberings

AbstractNumbering::style_link and num_style_link were kept and read, but never
written.
---
 docx-core/src/documents/elements/abstract_numbering.rs | 9 ++++++++-
 docx-core/src/xml_builder/elements.rs                  | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/abstract_numbering.rs b/docx-core/src/documents/elements/abstract_numbering.rs
index 9794f9c..fc09aaa 100644
--- a/docx-core/src/documents/elements/abstract_numbering.rs
+++ b/docx-core/src/documents/elements/abstract_numbering.rs
@@ -54,7 +54,14 @@ impl BuildXML for AbstractNumbering {
             builder = builder.multi_level_type(multi_level_type)?;
         }
 
-        builder.add_children(&self.levels)?.close()?.into_inner()
+        builder
+            .apply_opt(self.style_link.as_ref(), |link, b| b.style_link(link))?
+            .apply_opt(self.num_style_link.as_ref(), |link, b| {
+                b.num_style_link(link)
+            })?
+            .add_children(&self.levels)?
+            .close()?
+            .into_inner()
     }
 }
 
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index eebbc45..b57e4e6 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -494,6 +494,8 @@ impl<W: Write> XMLBuilder<W> {
     );
 
     closed_with_str!(multi_level_type, "w:multiLevelType");
+    closed_with_str!(style_link, "w:styleLink");
+    closed_with_str!(num_style_link, "w:numStyleLink");
 
     open!(open_abstract_num, "w:abstractNum", "w:abstractNumId");
     open!(open_level, "w:lvl", "w:ilvl");
-- 
2.43.0


From e26a3c6eea565cc031f72f165e0522aa7187e3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:51:32 +0000
Subject: [PATCH 43/75] fix: do not write the default numbering beside a
 numbering with its id

A document that defined numbering 1 itself, or was read from a package written
by this library, was written with two definitions of that id.
---
 docx-core/src/documents/numberings.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/numberings.rs b/docx-core/src/documents/numberings.rs
index 0b42420..a5ecbad 100644
--- a/docx-core/src/documents/numberings.rs
+++ b/docx-core/src/documents/numberings.rs
@@ -34,12 +34,22 @@ impl BuildXML for Numberings {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        let default_abstract_num = if self.abstract_nums.iter().any(|a| a.id == 1) {
+            None
+        } else {
+            Some(create_default_numbering())
+        };
+        let default_num = if self.numberings.iter().any(|n| n.id == 1) {
+            None
+        } else {
+            Some(Numbering::new(1, 1))
+        };
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_numbering()?
-            .add_child(&create_default_numbering())?
+            .add_optional_child(&default_abstract_num)?
             .add_children(&self.abstract_nums)?
-            .add_child(&Numbering::new(1, 1))?
+            .add_optional_child(&default_num)?
             .add_children(&self.numberings)?
             .close()?
             .into_inner()
-- 
2.43.0


From 041eb45e3ac796c6cd99e3a065cf8023707dfefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:51:32 +0000
Subject: [PATCH 44/75] fix: write the start of a level override before its
 level

The schema has w:startOverride before w:lvl; the other order is not valid.
---
 docx-core/src/documents/elements/level_override.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/level_override.rs b/docx-core/src/documents/elements/level_override.rs
index d7e1c99..7a73578 100644
--- a/docx-core/src/documents/elements/level_override.rs
+++ b/docx-core/src/documents/elements/level_override.rs
@@ -45,10 +45,10 @@ impl BuildXML for LevelOverride {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
             .open_level_override(&format!("{}", self.level))?
-            .add_optional_child(&self.override_level)?
             .apply_opt(self.override_start, |start, b| {
                 b.start_override(&format!("{start}"))
             })?
+            .add_optional_child(&self.override_level)?
             .close()?
             .into_inner()
     }
-- 
2.43.0


From b8a13b9dd4ea46c7b7f72899ff559307aef92e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:59:00 +0000
Subject: [PATCH 45/75] fix: write custom properties in a fixed order

The order, and with it the property ids, followed the iteration order of a hash
map, so that the same document was written differently from one run to the next.
---
 docx-core/src/documents/doc_props/custom.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/doc_props/custom.rs b/docx-core/src/documents/doc_props/custom.rs
index 41cb22f..5346358 100644
--- a/docx-core/src/documents/doc_props/custom.rs
+++ b/docx-core/src/documents/doc_props/custom.rs
@@ -26,13 +26,16 @@ impl BuildXML for CustomProps {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        // A hash map has no order of its own; written packages need one.
+        let mut properties: Vec<_> = self.properties.iter().collect();
+        properties.sort();
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_custom_properties(
                 "http://schemas.openxmlformats.org/officeDocument/2006/custom-properties",
                 "http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes",
             )?
-            .apply_each(self.properties.iter().enumerate(), |(i, (key, item)), b| {
+            .apply_each(properties.into_iter().enumerate(), |(i, (key, item)), b| {
                 b.open_property(
                     "{D5CDD505-2E9C-101B-9397-08002B2CF9AE}",
                     // I can not find spec about this id.
-- 
2.43.0


From 5fca4f11158c7849e64ee13dcce04bb2c2d3da94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:05:35 +0000
Subject: [PATCH 46/75] fix: write the same paragraph ids after an earlier
 collection of footnotes

The copies kept by Docx::collect_footnotes took part in the search for repeated
paragraph ids, so that ids depended on what else had been collected before.
---
 docx-core/src/documents/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 835fb8b..53b0528 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -875,6 +875,9 @@ impl Docx {
         let has_toc = self.expand_auto_tocs();
         self.fill_empty_stories();
         self.end_comments_in_paragraphs();
+        // Footnotes are collected for every package; those of an earlier
+        // collection take no part in it.
+        self.footnotes.set(vec![]);
         self.refresh_duplicate_para_ids();
         self.update_dependencies();
         self.reserve_para_ids();
-- 
2.43.0


From d69c0bbf56e0f0d87899957fde0fe9e883f80d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:15:23 +0000
Subject: [PATCH 47/75] fix: escape every attribute and text once, when it is
 written

---
 docx-core/src/documents/document_rels.rs      |  4 +--
 docx-core/src/documents/elements/based_on.rs  |  5 +---
 docx-core/src/documents/elements/delete.rs    |  4 +--
 .../src/documents/elements/delete_text.rs     |  3 +-
 docx-core/src/documents/elements/hyperlink.rs |  3 +-
 docx-core/src/documents/elements/insert.rs    |  4 +--
 docx-core/src/documents/elements/link.rs      |  5 +---
 docx-core/src/documents/elements/move_from.rs |  4 +--
 docx-core/src/documents/elements/move_to.rs   |  4 +--
 docx-core/src/documents/elements/name.rs      |  6 ++--
 .../elements/paragraph_property_change.rs     |  3 +-
 .../src/documents/elements/paragraph_style.rs |  5 +---
 docx-core/src/documents/elements/run.rs       |  2 +-
 docx-core/src/documents/elements/run_fonts.rs | 19 ++++++-------
 docx-core/src/documents/elements/run_style.rs |  5 +---
 docx-core/src/documents/elements/style.rs     |  3 +-
 .../documents/elements/table_of_contents.rs   |  4 +--
 docx-core/src/documents/elements/text.rs      |  3 +-
 docx-core/src/documents/webextension.rs       |  3 +-
 docx-core/src/escape/mod.rs                   | 28 +++++++++++++++----
 docx-core/src/reader/comment.rs               |  3 +-
 docx-core/src/reader/run.rs                   |  9 +++---
 docx-core/src/xml/writer.rs                   | 19 +++++++------
 docx-core/src/xml_builder/mod.rs              |  2 +-
 docx-core/src/xml_json/mod.rs                 |  5 ++--
 25 files changed, 77 insertions(+), 78 deletions(-)

diff --git a/docx-core/src/documents/document_rels.rs b/docx-core/src/documents/document_rels.rs
index b8ea39a..04e20bb 100644
--- a/docx-core/src/documents/document_rels.rs
+++ b/docx-core/src/documents/document_rels.rs
@@ -3,7 +3,7 @@ use std::io::Write;
 
 use super::*;
 use crate::documents::BuildXML;
-use crate::{escape::*, xml_builder::*};
+use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq, Serialize, Default)]
 #[serde(rename_all = "camelCase")]
@@ -40,7 +40,7 @@ impl DocumentRels {
         r#type: impl Into<String>,
     ) -> Self {
         self.hyperlinks
-            .push((id.into(), escape_owned(path.into()), r#type.into()));
+            .push((id.into(), path.into(), r#type.into()));
         self
     }
 }
diff --git a/docx-core/src/documents/elements/based_on.rs b/docx-core/src/documents/elements/based_on.rs
index 74e3513..dacea70 100644
--- a/docx-core/src/documents/elements/based_on.rs
+++ b/docx-core/src/documents/elements/based_on.rs
@@ -2,7 +2,6 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -12,9 +11,7 @@ pub struct BasedOn {
 
 impl BasedOn {
     pub fn new(val: impl Into<String>) -> BasedOn {
-        BasedOn {
-            val: escape_owned(val.into()),
-        }
+        BasedOn { val: val.into() }
     }
 }
 
diff --git a/docx-core/src/documents/elements/delete.rs b/docx-core/src/documents/elements/delete.rs
index afea7c3..9727547 100644
--- a/docx-core/src/documents/elements/delete.rs
+++ b/docx-core/src/documents/elements/delete.rs
@@ -2,8 +2,8 @@ use serde::ser::{SerializeStruct, Serializer};
 use serde::Serialize;
 use std::io::Write;
 
+use crate::documents::*;
 use crate::xml_builder::*;
-use crate::{documents::*, escape};
 
 #[derive(Serialize, Debug, Clone, PartialEq)]
 pub struct Delete {
@@ -85,7 +85,7 @@ impl Delete {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> Delete {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
diff --git a/docx-core/src/documents/elements/delete_text.rs b/docx-core/src/documents/elements/delete_text.rs
index befcafe..2479b15 100644
--- a/docx-core/src/documents/elements/delete_text.rs
+++ b/docx-core/src/documents/elements/delete_text.rs
@@ -2,7 +2,6 @@ use serde::{Deserialize, Serialize};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, Deserialize, Serialize, PartialEq)]
@@ -15,7 +14,7 @@ pub struct DeleteText {
 impl DeleteText {
     pub fn new(text: impl Into<String>) -> DeleteText {
         DeleteText {
-            text: escape_owned(text.into()),
+            text: text.into(),
             preserve_space: true,
         }
     }
diff --git a/docx-core/src/documents/elements/hyperlink.rs b/docx-core/src/documents/elements/hyperlink.rs
index 2bd9483..d5722d9 100644
--- a/docx-core/src/documents/elements/hyperlink.rs
+++ b/docx-core/src/documents/elements/hyperlink.rs
@@ -3,7 +3,6 @@ use std::io::Write;
 
 use super::*;
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::types::*;
 use crate::{create_hyperlink_rid, generate_hyperlink_id, xml_builder::*};
 
@@ -37,7 +36,7 @@ impl Hyperlink {
             match t {
                 HyperlinkType::External => HyperlinkData::External {
                     rid: create_hyperlink_rid(generate_hyperlink_id()),
-                    path: escape_owned(value.into()),
+                    path: value.into(),
                 },
                 HyperlinkType::Anchor => HyperlinkData::Anchor {
                     anchor: value.into(),
diff --git a/docx-core/src/documents/elements/insert.rs b/docx-core/src/documents/elements/insert.rs
index fe43151..a9a007d 100644
--- a/docx-core/src/documents/elements/insert.rs
+++ b/docx-core/src/documents/elements/insert.rs
@@ -5,7 +5,7 @@ use std::io::Write;
 use super::*;
 
 use crate::documents::{BuildXML, HistoryId, Run};
-use crate::{escape, xml_builder::*};
+use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
 pub enum InsertChild {
@@ -131,7 +131,7 @@ impl Insert {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> Insert {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
diff --git a/docx-core/src/documents/elements/link.rs b/docx-core/src/documents/elements/link.rs
index f2e53d2..271197d 100644
--- a/docx-core/src/documents/elements/link.rs
+++ b/docx-core/src/documents/elements/link.rs
@@ -2,7 +2,6 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -12,9 +11,7 @@ pub struct Link {
 
 impl Link {
     pub fn new(val: impl Into<String>) -> Link {
-        Link {
-            val: escape_owned(val.into()),
-        }
+        Link { val: val.into() }
     }
 }
 
diff --git a/docx-core/src/documents/elements/move_from.rs b/docx-core/src/documents/elements/move_from.rs
index d68e09c..c20afb1 100644
--- a/docx-core/src/documents/elements/move_from.rs
+++ b/docx-core/src/documents/elements/move_from.rs
@@ -2,8 +2,8 @@ use serde::ser::{SerializeStruct, Serializer};
 use serde::Serialize;
 use std::io::Write;
 
+use crate::documents::*;
 use crate::xml_builder::*;
-use crate::{documents::*, escape};
 
 #[derive(Serialize, Debug, Clone, PartialEq)]
 pub struct MoveFrom {
@@ -84,7 +84,7 @@ impl MoveFrom {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> MoveFrom {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
diff --git a/docx-core/src/documents/elements/move_to.rs b/docx-core/src/documents/elements/move_to.rs
index 7bfb344..96d8a0b 100644
--- a/docx-core/src/documents/elements/move_to.rs
+++ b/docx-core/src/documents/elements/move_to.rs
@@ -5,7 +5,7 @@ use std::io::Write;
 use super::*;
 
 use crate::documents::{BuildXML, HistoryId, Run};
-use crate::{escape, xml_builder::*};
+use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
 pub enum MoveToChild {
@@ -124,7 +124,7 @@ impl MoveTo {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> MoveTo {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
diff --git a/docx-core/src/documents/elements/name.rs b/docx-core/src/documents/elements/name.rs
index 5f5f988..85352ab 100644
--- a/docx-core/src/documents/elements/name.rs
+++ b/docx-core/src/documents/elements/name.rs
@@ -4,7 +4,7 @@ use std::io::Write;
 use std::str::FromStr;
 
 use crate::documents::BuildXML;
-use crate::{escape, xml_builder::*};
+use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct Name {
@@ -13,9 +13,7 @@ pub struct Name {
 
 impl Name {
     pub fn new(name: impl Into<String>) -> Name {
-        Name {
-            name: escape::escape_owned(name.into()),
-        }
+        Name { name: name.into() }
     }
 
     pub fn starts_with(&self, s: &str) -> bool {
diff --git a/docx-core/src/documents/elements/paragraph_property_change.rs b/docx-core/src/documents/elements/paragraph_property_change.rs
index 1b480b4..06de4e9 100644
--- a/docx-core/src/documents/elements/paragraph_property_change.rs
+++ b/docx-core/src/documents/elements/paragraph_property_change.rs
@@ -2,7 +2,6 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
-use crate::escape;
 use crate::xml_builder::*;
 
 #[derive(Serialize, Debug, Clone, PartialEq)]
@@ -36,7 +35,7 @@ impl ParagraphPropertyChange {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> ParagraphPropertyChange {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
diff --git a/docx-core/src/documents/elements/paragraph_style.rs b/docx-core/src/documents/elements/paragraph_style.rs
index b95eaf7..8d35957 100644
--- a/docx-core/src/documents/elements/paragraph_style.rs
+++ b/docx-core/src/documents/elements/paragraph_style.rs
@@ -2,7 +2,6 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -27,9 +26,7 @@ impl Default for ParagraphStyle {
 impl ParagraphStyle {
     pub fn new(val: Option<impl Into<String>>) -> ParagraphStyle {
         if let Some(v) = val {
-            ParagraphStyle {
-                val: escape_owned(v.into()),
-            }
+            ParagraphStyle { val: v.into() }
         } else {
             Default::default()
         }
diff --git a/docx-core/src/documents/elements/run.rs b/docx-core/src/documents/elements/run.rs
index cebf03a..18e7daf 100644
--- a/docx-core/src/documents/elements/run.rs
+++ b/docx-core/src/documents/elements/run.rs
@@ -400,7 +400,7 @@ impl BuildXML for RunChild {
             RunChild::DeleteInstrText(c) => c.build_to(stream),
             RunChild::InstrTextString(instruction) => XMLBuilder::from(stream)
                 .write(XmlEvent::start_element("w:instrText").attr("xml:space", "preserve"))?
-                .plain_text(&crate::escape::escape(instruction))?
+                .plain_text(instruction)?
                 .close()?
                 .into_inner(),
             RunChild::FootnoteReference(c) => c.build_to(stream),
diff --git a/docx-core/src/documents/elements/run_fonts.rs b/docx-core/src/documents/elements/run_fonts.rs
index ddd28ad..2ff1203 100644
--- a/docx-core/src/documents/elements/run_fonts.rs
+++ b/docx-core/src/documents/elements/run_fonts.rs
@@ -2,7 +2,6 @@ use serde::{Deserialize, Serialize};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 /*
@@ -42,47 +41,47 @@ impl RunFonts {
     }
 
     pub fn ascii(mut self, f: impl Into<String>) -> Self {
-        self.ascii = Some(escape_owned(f.into()));
+        self.ascii = Some(f.into());
         self
     }
 
     pub fn hi_ansi(mut self, f: impl Into<String>) -> Self {
-        self.hi_ansi = Some(escape_owned(f.into()));
+        self.hi_ansi = Some(f.into());
         self
     }
 
     pub fn east_asia(mut self, f: impl Into<String>) -> Self {
-        self.east_asia = Some(escape_owned(f.into()));
+        self.east_asia = Some(f.into());
         self
     }
 
     pub fn cs(mut self, f: impl Into<String>) -> Self {
-        self.cs = Some(escape_owned(f.into()));
+        self.cs = Some(f.into());
         self
     }
 
     pub fn ascii_theme(mut self, f: impl Into<String>) -> Self {
-        self.ascii_theme = Some(escape_owned(f.into()));
+        self.ascii_theme = Some(f.into());
         self
     }
 
     pub fn hi_ansi_theme(mut self, f: impl Into<String>) -> Self {
-        self.hi_ansi_theme = Some(escape_owned(f.into()));
+        self.hi_ansi_theme = Some(f.into());
         self
     }
 
     pub fn east_asia_theme(mut self, f: impl Into<String>) -> Self {
-        self.east_asia_theme = Some(escape_owned(f.into()));
+        self.east_asia_theme = Some(f.into());
         self
     }
 
     pub fn cs_theme(mut self, f: impl Into<String>) -> Self {
-        self.cs_theme = Some(escape_owned(f.into()));
+        self.cs_theme = Some(f.into());
         self
     }
 
     pub fn hint(mut self, f: impl Into<String>) -> Self {
-        self.hint = Some(escape_owned(f.into()));
+        self.hint = Some(f.into());
         self
     }
 }
diff --git a/docx-core/src/documents/elements/run_style.rs b/docx-core/src/documents/elements/run_style.rs
index 4dc6133..69e6fa9 100644
--- a/docx-core/src/documents/elements/run_style.rs
+++ b/docx-core/src/documents/elements/run_style.rs
@@ -2,7 +2,6 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -20,9 +19,7 @@ impl Default for RunStyle {
 
 impl RunStyle {
     pub fn new(val: impl Into<String>) -> RunStyle {
-        RunStyle {
-            val: escape_owned(val.into()),
-        }
+        RunStyle { val: val.into() }
     }
 }
 
diff --git a/docx-core/src/documents/elements/style.rs b/docx-core/src/documents/elements/style.rs
index 7cf4d00..271a9ba 100644
--- a/docx-core/src/documents/elements/style.rs
+++ b/docx-core/src/documents/elements/style.rs
@@ -2,7 +2,6 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::types::*;
 use crate::xml_builder::*;
 use crate::StyleType;
@@ -69,7 +68,7 @@ impl Style {
     pub fn new(style_id: impl Into<String>, style_type: StyleType) -> Self {
         let default = Default::default();
         Style {
-            style_id: escape_owned(style_id.into()),
+            style_id: style_id.into(),
             style_type,
             ..default
         }
diff --git a/docx-core/src/documents/elements/table_of_contents.rs b/docx-core/src/documents/elements/table_of_contents.rs
index f32661e..aac96f7 100644
--- a/docx-core/src/documents/elements/table_of_contents.rs
+++ b/docx-core/src/documents/elements/table_of_contents.rs
@@ -2,9 +2,9 @@ use serde::ser::{SerializeStruct, Serializer};
 use serde::Serialize;
 use std::io::Write;
 
+use crate::documents::*;
 use crate::types::*;
 use crate::xml_builder::*;
-use crate::{documents::*, escape};
 
 #[derive(Debug, Clone, PartialEq)]
 pub enum TocContent {
@@ -105,7 +105,7 @@ impl TableOfContents {
 
     pub fn delete(mut self, author: impl Into<String>, date: impl Into<String>) -> Self {
         self.delete = Some(TableOfContentsReviewData {
-            author: escape::escape_owned(author.into()),
+            author: author.into(),
             date: date.into(),
         });
         self
diff --git a/docx-core/src/documents/elements/text.rs b/docx-core/src/documents/elements/text.rs
index 1d5b5dd..a735424 100644
--- a/docx-core/src/documents/elements/text.rs
+++ b/docx-core/src/documents/elements/text.rs
@@ -3,7 +3,6 @@ use serde::Deserialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, Deserialize, PartialEq)]
@@ -16,7 +15,7 @@ pub struct Text {
 impl Text {
     pub fn new(text: impl Into<String>) -> Text {
         Text {
-            text: escape_owned(text.into()),
+            text: text.into(),
             preserve_space: true,
         }
     }
diff --git a/docx-core/src/documents/webextension.rs b/docx-core/src/documents/webextension.rs
index a9739dd..dd56cb4 100644
--- a/docx-core/src/documents/webextension.rs
+++ b/docx-core/src/documents/webextension.rs
@@ -2,7 +2,6 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Serialize, Debug, PartialEq, Clone)]
@@ -50,7 +49,7 @@ impl WebExtension {
 
     pub fn property(mut self, name: impl Into<String>, value: impl Into<String>) -> Self {
         let v = value.into();
-        let v = format!("&quot;{}&quot;", escape(&v).replace("&quot;", "\\&quot;"));
+        let v = format!("\"{}\"", v.replace('"', "\\\""));
         self.properties.push(WebExtensionProperty::new(name, v));
         self
     }
diff --git a/docx-core/src/escape/mod.rs b/docx-core/src/escape/mod.rs
index abe5431..f4edfb8 100644
--- a/docx-core/src/escape/mod.rs
+++ b/docx-core/src/escape/mod.rs
@@ -1,3 +1,5 @@
+use std::borrow::Cow;
+
 pub(crate) fn escape(text: &str) -> String {
     let mut escaped = String::with_capacity(text.len());
     for ch in text.chars() {
@@ -8,8 +10,11 @@ pub(crate) fn escape(text: &str) -> String {
             '"' => escaped.push_str("&quot;"),
             '\'' => escaped.push_str("&apos;"),
             '\n' => escaped.push_str("&#xA;"),
+            '\t' => escaped.push_str("&#x9;"),
             // Escaping carriage returns causes errors in LibreOffice.
             '\r' => {}
+            // XML has no way to write these characters.
+            '\0'..='\u{1f}' | '\u{fffe}' | '\u{ffff}' => {}
             _ => escaped.push(ch),
         }
     }
@@ -21,17 +26,30 @@ pub(crate) fn escape(text: &str) -> String {
 /// The original `String` is returned unchanged when it contains no character
 /// that needs escaping or removal.
 pub(crate) fn escape_owned(text: String) -> String {
-    if text
-        .as_bytes()
-        .iter()
-        .any(|byte| matches!(byte, b'&' | b'<' | b'>' | b'"' | b'\'' | b'\n' | b'\r'))
-    {
+    if needs_escape(&text) {
         escape(&text)
     } else {
         text
     }
 }
 
+/// Escapes an XML value, borrowing text without anything to escape.
+pub(crate) fn escape_value(text: &str) -> Cow<'_, str> {
+    if needs_escape(text) {
+        Cow::Owned(escape(text))
+    } else {
+        Cow::Borrowed(text)
+    }
+}
+
+fn needs_escape(text: &str) -> bool {
+    text.as_bytes()
+        .iter()
+        // 0xef starts U+FFFE and U+FFFF.
+        .any(|byte| matches!(byte, b'&' | b'<' | b'>' | b'"' | b'\'' | 0..=0x1f | 0xef))
+}
+
+#[cfg(test)]
 pub(crate) fn replace_escaped(text: &str) -> String {
     let mut decoded = String::with_capacity(text.len());
     let mut rest = text;
diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index 552588a..a34b5f6 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -2,7 +2,6 @@ use std::io::Read;
 use std::str::FromStr;
 
 use super::*;
-use crate::escape;
 
 impl ElementReader for Comment {
     fn read<R: Read>(
@@ -12,7 +11,7 @@ impl ElementReader for Comment {
         let id = usize::from_str(&read(attrs, "id").expect("should comment id exists."))?;
         let mut comment = Comment::new(id);
         if let Some(author) = read(attrs, "author") {
-            comment = comment.author(escape::escape(author.as_str()));
+            comment = comment.author(author);
         };
         if let Some(date) = read(attrs, "date") {
             comment = comment.date(date);
diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 0ff2425..9bd555e 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -5,7 +5,6 @@ use std::str::FromStr;
 
 use super::Run;
 
-use crate::escape::replace_escaped;
 use crate::types::BreakType;
 use crate::{reader::*, FieldCharType};
 
@@ -156,19 +155,19 @@ impl ElementReader for Run {
                 }
                 Ok(XmlEvent::Characters(c)) => match text_state {
                     TextState::Delete => {
-                        run = run.add_delete_text_without_escape(replace_escaped(&c));
+                        run = run.add_delete_text_without_escape(c);
                     }
                     TextState::Text => {
-                        run = run.add_text_without_escape(replace_escaped(&c));
+                        run = run.add_text_without_escape(c);
                     }
                     _ => {}
                 },
                 Ok(XmlEvent::Whitespace(c)) => match text_state {
                     TextState::Delete => {
-                        run = run.add_delete_text_without_escape(replace_escaped(&c));
+                        run = run.add_delete_text_without_escape(c);
                     }
                     TextState::Text => {
-                        run = run.add_text_without_escape(replace_escaped(&c));
+                        run = run.add_text_without_escape(c);
                     }
                     _ => {}
                 },
diff --git a/docx-core/src/xml/writer.rs b/docx-core/src/xml/writer.rs
index 1575b27..df1eccd 100644
--- a/docx-core/src/xml/writer.rs
+++ b/docx-core/src/xml/writer.rs
@@ -8,6 +8,7 @@ use quick_xml::Writer as QuickWriter;
 use smallvec::SmallVec;
 
 use super::common::XmlVersion;
+use crate::escape::{escape_owned, escape_value};
 
 pub type Result<T> = std::result::Result<T, Error>;
 
@@ -144,9 +145,12 @@ impl<W: Write> EventWriter<W> {
             XmlEvent::Characters(text) => {
                 self.flush_pending()?;
                 let text_event = if self.perform_escaping {
-                    BytesText::new(text.as_ref())
+                    BytesText::from_escaped(match text {
+                        Cow::Borrowed(text) => escape_value(text),
+                        Cow::Owned(text) => Cow::Owned(escape_owned(text)),
+                    })
                 } else {
-                    BytesText::from_escaped(text.as_ref())
+                    BytesText::from_escaped(text)
                 };
                 self.writer.write_event(Event::Text(text_event))?;
             }
@@ -231,14 +235,13 @@ impl From<String> for XmlEvent<'static> {
 }
 
 impl<'a> StartElement<'a> {
-    /// Appends an attribute with an already escaped string value.
-    ///
-    /// The value is copied directly into the start tag and is not XML-escaped.
+    /// Appends an attribute, escaping its value.
     pub fn attr(mut self, name: &str, value: &str) -> Self {
         self.encoded.push(b' ');
         self.encoded.extend_from_slice(name.as_bytes());
         self.encoded.extend_from_slice(b"=\"");
-        self.encoded.extend_from_slice(value.as_bytes());
+        self.encoded
+            .extend_from_slice(escape_value(value).as_bytes());
         self.encoded.push(b'"');
         self
     }
@@ -246,7 +249,7 @@ impl<'a> StartElement<'a> {
     /// Appends an attribute by formatting its value directly into the start tag.
     ///
     /// This avoids allocating an intermediate `String`. The formatted value is
-    /// not XML-escaped.
+    /// escaped.
     pub fn attr_display(mut self, name: &str, value: impl fmt::Display) -> Self {
         self.encoded.push(b' ');
         self.encoded.extend_from_slice(name.as_bytes());
@@ -265,7 +268,7 @@ struct AttributeValueWriter<'a>(&'a mut SmallVec<[u8; 128]>);
 
 impl fmt::Write for AttributeValueWriter<'_> {
     fn write_str(&mut self, value: &str) -> fmt::Result {
-        self.0.extend_from_slice(value.as_bytes());
+        self.0.extend_from_slice(escape_value(value).as_bytes());
         Ok(())
     }
 }
diff --git a/docx-core/src/xml_builder/mod.rs b/docx-core/src/xml_builder/mod.rs
index d9dee22..14aff05 100644
--- a/docx-core/src/xml_builder/mod.rs
+++ b/docx-core/src/xml_builder/mod.rs
@@ -44,7 +44,7 @@ impl<W: Write> XMLBuilder<W> {
     pub(crate) fn new(writer: W) -> Self {
         let config = EmitterConfig {
             write_document_declaration: false,
-            perform_escaping: false,
+            perform_escaping: true,
             perform_indent: false,
             line_separator: "".into(),
         };
diff --git a/docx-core/src/xml_json/mod.rs b/docx-core/src/xml_json/mod.rs
index c7558e8..f0b0f64 100644
--- a/docx-core/src/xml_json/mod.rs
+++ b/docx-core/src/xml_json/mod.rs
@@ -13,6 +13,7 @@ use std::io::prelude::*;
 use std::io::Cursor;
 use std::str::FromStr;
 
+use crate::escape::escape_value;
 use crate::reader::{EventReader, Namespace, OwnedAttribute, OwnedName, XmlEvent};
 
 /// An XML Document
@@ -59,13 +60,13 @@ impl XmlData {
         write!(f, "<{}", self.name)?;
 
         for (key, val) in self.attributes.iter() {
-            write!(f, r#" {key}="{val}""#)?;
+            write!(f, r#" {key}="{}""#, escape_value(val))?;
         }
 
         f.write_char('>')?;
 
         if let Some(ref data) = self.data {
-            write!(f, "{data}")?
+            write!(f, "{}", escape_value(data))?
         }
 
         for child in self.children.iter() {
-- 
2.43.0


From e79c29e5e53c9f9a3494ff0842ca4bfa1c3143de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:15:23 +0000
Subject: [PATCH 48/75] fix: keep any text in the arguments of table of
 contents and entry fields

---
 docx-core/src/documents/elements/instr_tc.rs  |  17 +-
 docx-core/src/documents/elements/instr_toc.rs | 213 ++++++------------
 docx-core/src/documents/field_args.rs         |  55 +++++
 docx-core/src/documents/mod.rs                |   1 +
 4 files changed, 136 insertions(+), 150 deletions(-)
 create mode 100644 docx-core/src/documents/field_args.rs

diff --git a/docx-core/src/documents/elements/instr_tc.rs b/docx-core/src/documents/elements/instr_tc.rs
index d0465e0..19954db 100644
--- a/docx-core/src/documents/elements/instr_tc.rs
+++ b/docx-core/src/documents/elements/instr_tc.rs
@@ -1,8 +1,8 @@
 use serde::Serialize;
 use std::io::Write;
 
+use crate::documents::field_args::quote_field_arg;
 use crate::documents::*;
-use crate::escape::escape_owned;
 use crate::xml_builder::XMLBuilder;
 
 // https://c-rex.net/projects/samples/ooxml/e1/Part4/OOXML_P4_DOCX_TCTC_topic_ID0EU2N1.html
@@ -20,7 +20,7 @@ pub struct InstrTC {
 impl InstrTC {
     pub fn new(text: impl Into<String>) -> Self {
         Self {
-            text: escape_owned(text.into()),
+            text: text.into(),
             ..Default::default()
         }
     }
@@ -46,24 +46,21 @@ impl BuildXML for InstrTC {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        let mut b = XMLBuilder::from(stream);
-        let raw = b.inner_mut()?;
-
-        write!(raw, "TC \"{}\"", self.text)?;
+        let mut instr = format!("TC {}", quote_field_arg(&self.text));
 
         if let Some(ref t) = self.item_type_identifier {
-            write!(raw, " \\f {t}")?;
+            instr.push_str(&format!(" \\f {}", quote_field_arg(t)));
         }
 
         if let Some(level) = self.level {
-            write!(raw, " \\l {level}")?;
+            instr.push_str(&format!(" \\l {level}"));
         }
 
         if self.omits_page_number {
-            write!(raw, " \\n")?;
+            instr.push_str(" \\n");
         }
 
-        b.into_inner()
+        XMLBuilder::from(stream).plain_text(&instr)?.into_inner()
     }
 }
 
diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index a73951f..4ed1593 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -1,6 +1,7 @@
 use serde::Serialize;
 use std::io::Write;
 
+use crate::documents::field_args::{quote_field_arg, split_field_args};
 use crate::documents::*;
 use crate::xml_builder::XMLBuilder;
 
@@ -165,63 +166,60 @@ impl BuildXML for InstrToC {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        let mut b = XMLBuilder::from(stream);
-        let raw = b.inner_mut()?;
-
-        write!(raw, "TOC")?;
+        let mut instr = String::from("TOC");
 
         // \a
         if let Some(ref t) = self.caption_label {
-            write!(raw, " \\a &quot;{t}&quot;")?;
+            instr.push_str(&format!(" \\a {}", quote_field_arg(t)));
         }
 
         // \b
         if let Some(ref t) = self.entry_bookmark_name {
-            write!(raw, " \\b &quot;{t}&quot;")?;
+            instr.push_str(&format!(" \\b {}", quote_field_arg(t)));
         }
 
         // \c
         if let Some(ref t) = self.caption_label_including_numbers {
-            write!(raw, " \\c &quot;{t}&quot;")?;
+            instr.push_str(&format!(" \\c {}", quote_field_arg(t)));
         }
 
         // \d
         if let Some(ref t) = self.sequence_and_page_numbers_separator {
-            write!(raw, " \\d &quot;{t}&quot;")?;
+            instr.push_str(&format!(" \\d {}", quote_field_arg(t)));
         }
 
         // \f
         if let Some(ref t) = self.tc_field_identifier {
             if let Some(ref t) = t {
-                write!(raw, " \\f &quot;{t}&quot;")?;
+                instr.push_str(&format!(" \\f {}", quote_field_arg(t)));
             } else {
-                write!(raw, " \\f")?;
+                instr.push_str(" \\f");
             }
         }
 
         // \l
         if let Some(range) = self.tc_field_level_range {
-            write!(raw, " \\l &quot;{}-{}&quot;", range.0, range.1)?;
+            instr.push_str(&format!(" \\l \"{}-{}\"", range.0, range.1));
         }
 
         // \n
         if let Some(range) = self.omit_page_numbers_level_range {
-            write!(raw, " \\n &quot;{}-{}&quot;", range.0, range.1)?;
+            instr.push_str(&format!(" \\n \"{}-{}\"", range.0, range.1));
         }
 
         // \o
         if let Some(range) = self.heading_styles_range {
-            write!(raw, " \\o &quot;{}-{}&quot;", range.0, range.1)?;
+            instr.push_str(&format!(" \\o \"{}-{}\"", range.0, range.1));
         }
 
         // \p
         if let Some(ref t) = self.entry_and_page_number_separator {
-            write!(raw, " \\p &quot;{t}&quot;")?;
+            instr.push_str(&format!(" \\p {}", quote_field_arg(t)));
         }
 
         // \s
         if let Some(ref t) = self.seq_field_identifier_for_prefix {
-            write!(raw, " \\s &quot;{t}&quot;")?;
+            instr.push_str(&format!(" \\s {}", quote_field_arg(t)));
         }
 
         // \t
@@ -232,166 +230,101 @@ impl BuildXML for InstrToC {
                 .map(|s| format!("{},{}", (s.0).0, (s.0).1))
                 .collect::<Vec<String>>()
                 .join(",");
-            write!(raw, " \\t &quot;{s}&quot;")?;
+            instr.push_str(&format!(" \\t {}", quote_field_arg(&s)));
         }
 
         // \h
         if self.hyperlink {
-            write!(raw, " \\h")?;
+            instr.push_str(" \\h");
         }
 
         // \u
         if self.use_applied_paragraph_line_level {
-            write!(raw, " \\u")?;
+            instr.push_str(" \\u");
         }
 
         // \w
         if self.preserve_tab {
-            write!(raw, " \\w")?;
+            instr.push_str(" \\w");
         }
 
         // \x
         if self.preserve_new_line {
-            write!(raw, " \\x")?;
+            instr.push_str(" \\x");
         }
 
         // \z
         if self.hide_tab_and_page_numbers_in_webview {
-            write!(raw, " \\z")?;
+            instr.push_str(" \\z");
         }
 
-        b.into_inner()
+        XMLBuilder::from(stream).plain_text(&instr)?.into_inner()
     }
 }
 
 fn parse_level_range(i: &str) -> Option<(usize, usize)> {
-    let r = i.replace("&quot;", "").replace('\"', "");
-    let r: Vec<&str> = r.split('-').collect();
-    if let Some(s) = r.first() {
-        if let Ok(s) = usize::from_str(s) {
-            if let Some(e) = r.get(1) {
-                if let Ok(e) = usize::from_str(e) {
-                    return Some((s, e));
-                }
-            }
-        }
-    }
-    None
+    let (start, end) = i.split_once('-')?;
+    Some((start.parse().ok()?, end.parse().ok()?))
+}
+
+fn parse_styles_with_levels(i: &str) -> Vec<StyleWithLevel> {
+    let parts: Vec<&str> = i.split(',').collect();
+    parts
+        .chunks_exact(2)
+        .map_while(|c| {
+            let level = c[1].parse().ok()?;
+            Some(StyleWithLevel::new(c[0], level))
+        })
+        .collect()
 }
 
 impl std::str::FromStr for InstrToC {
     type Err = ();
 
     fn from_str(instr: &str) -> Result<Self, Self::Err> {
-        let mut s = instr.split(' ').peekable();
+        let mut args = split_field_args(instr).into_iter().peekable();
         let mut toc = InstrToC::new();
-        loop {
-            if let Some(i) = s.next() {
-                match i {
-                    "\\a" => {
-                        if let Some(r) = s.next() {
-                            let r = r.replace("&quot;", "").replace('\"', "");
-                            toc = toc.caption_label(r);
-                        }
-                    }
-                    "\\b" => {
-                        if let Some(r) = s.next() {
-                            let r = r.replace("&quot;", "").replace('\"', "");
-                            toc = toc.entry_bookmark_name(r);
-                        }
-                    }
-                    "\\c" => {
-                        if let Some(r) = s.next() {
-                            let r = r.replace("&quot;", "").replace('\"', "");
-                            toc = toc.caption_label_including_numbers(r);
-                        }
-                    }
-                    "\\d" => {
-                        if let Some(r) = s.next() {
-                            let r = r.replace("&quot;", "").replace('\"', "");
-                            toc = toc.sequence_and_page_numbers_separator(r);
-                        }
-                    }
-                    "\\f" => {
-                        if let Some(n) = s.peek() {
-                            if !n.starts_with("\\") {
-                                if let Some(r) = s.next() {
-                                    let r = r.replace("&quot;", "").replace('\"', "");
-                                    if r.is_empty() {
-                                        toc = toc.tc_field_identifier(None);
-                                    } else {
-                                        toc = toc.tc_field_identifier(Some(r));
-                                    }
-                                }
-                            } else {
-                                toc = toc.tc_field_identifier(None);
-                            }
-                        }
-                    }
-                    "\\h" => toc = toc.hyperlink(),
-                    "\\l" => {
-                        if let Some(r) = s.next() {
-                            if let Some((s, e)) = parse_level_range(r) {
-                                toc = toc.tc_field_level_range(s, e);
-                            }
-                        }
-                    }
-                    "\\n" => {
-                        if let Some(r) = s.next() {
-                            if let Some((s, e)) = parse_level_range(r) {
-                                toc = toc.omit_page_numbers_level_range(s, e);
-                            }
-                        }
-                    }
-                    "\\o" => {
-                        if let Some(r) = s.next() {
-                            if let Some((s, e)) = parse_level_range(r) {
-                                toc = toc.heading_styles_range(s, e);
-                            }
-                        }
-                    }
-                    "\\p" => {
-                        if let Some(r) = s.next() {
-                            let r = r.replace("&quot;", "").replace('\"', "");
-                            toc = toc.entry_and_page_number_separator(r);
-                        }
-                    }
-                    "\\s" => {
-                        if let Some(r) = s.next() {
-                            let r = r.replace("&quot;", "").replace('\"', "");
-                            toc = toc.seq_field_identifier_for_prefix(r);
-                        }
-                    }
-                    "\\t" => {
-                        if let Some(r) = s.next() {
-                            let r = r.replace("&quot;", "").replace('\"', "");
-                            let mut r = r.split(',');
-                            loop {
-                                if let Some(style) = r.next() {
-                                    if let Some(level) = r.next() {
-                                        if let Ok(level) = usize::from_str(level) {
-                                            toc = toc.add_style_with_level(StyleWithLevel((
-                                                style.to_string(),
-                                                level,
-                                            )));
-                                            continue;
-                                        }
-                                    }
-                                }
-                                break;
-                            }
-                        }
-                    }
-                    "\\u" => toc = toc.use_applied_paragraph_line_level(),
-                    "\\w" => toc = toc.preserve_tab(),
-                    "\\x" => toc = toc.preserve_new_line(),
-                    "\\z" => toc = toc.hide_tab_and_page_numbers_in_webview(),
-                    _ => {}
-                }
-            } else {
-                return Ok(toc);
+        while let Some(arg) = args.next() {
+            if !arg.is_switch() {
+                continue;
             }
+            let value = match arg.text.as_str() {
+                "\\a" | "\\b" | "\\c" | "\\d" | "\\f" | "\\l" | "\\n" | "\\o" | "\\p" | "\\s"
+                | "\\t" => args.next_if(|v| !v.is_switch()).map(|v| v.text),
+                _ => None,
+            };
+            toc = match (arg.text.as_str(), value) {
+                ("\\a", Some(v)) => toc.caption_label(v),
+                ("\\b", Some(v)) => toc.entry_bookmark_name(v),
+                ("\\c", Some(v)) => toc.caption_label_including_numbers(v),
+                ("\\d", Some(v)) => toc.sequence_and_page_numbers_separator(v),
+                ("\\f", v) => toc.tc_field_identifier(v.filter(|v| !v.is_empty())),
+                ("\\h", _) => toc.hyperlink(),
+                ("\\l", Some(v)) => match parse_level_range(&v) {
+                    Some((s, e)) => toc.tc_field_level_range(s, e),
+                    None => toc,
+                },
+                ("\\n", Some(v)) => match parse_level_range(&v) {
+                    Some((s, e)) => toc.omit_page_numbers_level_range(s, e),
+                    None => toc,
+                },
+                ("\\o", Some(v)) => match parse_level_range(&v) {
+                    Some((s, e)) => toc.heading_styles_range(s, e),
+                    None => toc,
+                },
+                ("\\p", Some(v)) => toc.entry_and_page_number_separator(v),
+                ("\\s", Some(v)) => toc.seq_field_identifier_for_prefix(v),
+                ("\\t", Some(v)) => parse_styles_with_levels(&v)
+                    .into_iter()
+                    .fold(toc, |toc, style| toc.add_style_with_level(style)),
+                ("\\u", _) => toc.use_applied_paragraph_line_level(),
+                ("\\w", _) => toc.preserve_tab(),
+                ("\\x", _) => toc.preserve_new_line(),
+                ("\\z", _) => toc.hide_tab_and_page_numbers_in_webview(),
+                _ => toc,
+            };
         }
+        Ok(toc)
     }
 }
 
diff --git a/docx-core/src/documents/field_args.rs b/docx-core/src/documents/field_args.rs
new file mode 100644
index 0000000..8cb2132
--- /dev/null
+++ b/docx-core/src/documents/field_args.rs
@@ -0,0 +1,55 @@
+/// An argument or switch of a field instruction.
+#[derive(Debug, PartialEq)]
+pub(crate) struct FieldArg {
+    pub text: String,
+    pub quoted: bool,
+}
+
+impl FieldArg {
+    pub fn is_switch(&self) -> bool {
+        !self.quoted && self.text.starts_with('\\')
+    }
+}
+
+/// Quotes an argument for a field instruction.
+pub(crate) fn quote_field_arg(text: &str) -> String {
+    format!("\"{}\"", text.replace('\\', "\\\\").replace('"', "\\\""))
+}
+
+/// Splits a field instruction into its arguments and switches.
+pub(crate) fn split_field_args(instr: &str) -> Vec<FieldArg> {
+    // Quotes may still be escaped as they are in the XML.
+    let unescaped = if instr.contains('"') {
+        None
+    } else {
+        Some(instr.replace("&quot;", "\""))
+    };
+    let mut chars = unescaped.as_deref().unwrap_or(instr).chars().peekable();
+    let mut args = vec![];
+    while let Some(c) = chars.next() {
+        if c.is_whitespace() {
+            continue;
+        }
+        let mut text = String::new();
+        let quoted = c == '"';
+        if quoted {
+            while let Some(c) = chars.next() {
+                match c {
+                    '"' => break,
+                    '\\' => match chars.next_if(|c| matches!(c, '\\' | '"')) {
+                        Some(c) => text.push(c),
+                        None => text.push('\\'),
+                    },
+                    c => text.push(c),
+                }
+            }
+        } else {
+            text.push(c);
+            while let Some(c) = chars.next_if(|c| !c.is_whitespace() && *c != '"') {
+                text.push(c);
+            }
+        }
+        args.push(FieldArg { text, quoted });
+    }
+    args
+}
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 53b0528..47ed88d 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -16,6 +16,7 @@ mod document;
 mod document_rels;
 mod document_tree;
 mod elements;
+mod field_args;
 mod font_table;
 mod footer;
 mod footer_id;
-- 
2.43.0


From f934be813c88a39dde8e55d95461836ae38e6cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:16:30 +0000
Subject: [PATCH 49/75] fix: include the text of links and content controls in
 the raw text of a paragraph

---
 docx-core/src/documents/elements/paragraph.rs | 117 +++++++-----------
 1 file changed, 48 insertions(+), 69 deletions(-)

diff --git a/docx-core/src/documents/elements/paragraph.rs b/docx-core/src/documents/elements/paragraph.rs
index b45637e..a7319f4 100644
--- a/docx-core/src/documents/elements/paragraph.rs
+++ b/docx-core/src/documents/elements/paragraph.rs
@@ -155,6 +155,53 @@ impl Serialize for ParagraphChild {
     }
 }
 
+fn push_raw_text(children: &[ParagraphChild], s: &mut String) {
+    for c in children {
+        match c {
+            ParagraphChild::Run(run) => push_run_text(run, s),
+            ParagraphChild::Insert(i) => {
+                for c in i.children.iter() {
+                    if let InsertChild::Run(run) = c {
+                        push_run_text(run, s);
+                    }
+                }
+            }
+            ParagraphChild::MoveTo(mt) => {
+                for c in mt.children.iter() {
+                    if let MoveToChild::Run(run) = c {
+                        push_run_text(run, s);
+                    }
+                }
+            }
+            ParagraphChild::Hyperlink(link) => push_raw_text(&link.children, s),
+            ParagraphChild::StructuredDataTag(tag) => push_tag_text(tag, s),
+            // MoveFrom is skipped — it contains ghost text from the original location.
+            _ => {}
+        }
+    }
+}
+
+fn push_tag_text(tag: &StructuredDataTag, s: &mut String) {
+    for c in tag.children.iter() {
+        match c {
+            StructuredDataTagChild::Run(run) => push_run_text(run, s),
+            StructuredDataTagChild::StructuredDataTag(tag) => push_tag_text(tag, s),
+            _ => {}
+        }
+    }
+}
+
+fn push_run_text(run: &Run, s: &mut String) {
+    for c in run.children.iter() {
+        match c {
+            RunChild::Text(t) => s.push_str(&t.text),
+            RunChild::Tab(_) | RunChild::PTab(_) => s.push('\t'),
+            RunChild::Break(_) | RunChild::CarriageReturn(_) => s.push('\n'),
+            _ => {}
+        }
+    }
+}
+
 impl Paragraph {
     pub fn new() -> Paragraph {
         Default::default()
@@ -395,75 +442,7 @@ impl Paragraph {
 
     pub fn raw_text(&self) -> String {
         let mut s = "".to_string();
-        // For now support only run, ins, and moveTo.
-        // MoveFrom is skipped — it contains ghost text from the original location.
-        for c in self.children.iter() {
-            match c {
-                ParagraphChild::Insert(i) => {
-                    for c in i.children.iter() {
-                        if let InsertChild::Run(r) = c {
-                            for c in r.children.iter() {
-                                match c {
-                                    RunChild::Text(t) => {
-                                        s.push_str(&t.text);
-                                    }
-                                    RunChild::Tab(_t) => {
-                                        s.push('\t');
-                                    }
-                                    RunChild::PTab(_t) => {
-                                        s.push('\t');
-                                    }
-                                    RunChild::Break(_b) => {
-                                        s.push('\n');
-                                    }
-                                    RunChild::CarriageReturn(_cr) => {
-                                        s.push('\n');
-                                    }
-                                    _ => {}
-                                }
-                            }
-                        }
-                    }
-                }
-                ParagraphChild::Run(run) => {
-                    for c in run.children.iter() {
-                        match c {
-                            RunChild::Text(t) => {
-                                s.push_str(&t.text);
-                            }
-                            RunChild::Tab(_t) => {
-                                s.push('\t');
-                            }
-                            RunChild::PTab(_t) => {
-                                s.push('\t');
-                            }
-                            RunChild::Break(_b) => {
-                                s.push('\n');
-                            }
-                            RunChild::CarriageReturn(_cr) => {
-                                s.push('\n');
-                            }
-                            _ => {}
-                        }
-                    }
-                }
-                ParagraphChild::MoveTo(mt) => {
-                    for c in mt.children.iter() {
-                        if let MoveToChild::Run(r) = c {
-                            for c in r.children.iter() {
-                                if let RunChild::Text(t) = c {
-                                    s.push_str(&t.text);
-                                }
-                            }
-                        }
-                    }
-                }
-                ParagraphChild::MoveFrom(_) => {
-                    // Skip — ghost text from original location
-                }
-                _ => {}
-            }
-        }
+        push_raw_text(&self.children, &mut s);
         s
     }
 
-- 
2.43.0


From 0b9e464c400ff01d2b28a2c7acd7de33ddea992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:37:16 +0000
Subject: [PATCH 50/75] fix: report malformed custom XML as an error and keep
 all of its text

---
 docx-core/src/xml_json/mod.rs | 178 +++++++++++-----------------------
 1 file changed, 57 insertions(+), 121 deletions(-)

diff --git a/docx-core/src/xml_json/mod.rs b/docx-core/src/xml_json/mod.rs
index f0b0f64..ee05b84 100644
--- a/docx-core/src/xml_json/mod.rs
+++ b/docx-core/src/xml_json/mod.rs
@@ -14,7 +14,7 @@ use std::io::Cursor;
 use std::str::FromStr;
 
 use crate::escape::escape_value;
-use crate::reader::{EventReader, Namespace, OwnedAttribute, OwnedName, XmlEvent};
+use crate::reader::{EventReader, OwnedAttribute, OwnedName, XmlEvent};
 
 /// An XML Document
 #[derive(Debug, Clone)]
@@ -87,123 +87,15 @@ impl Display for XmlData {
 fn map_owned_attributes(attrs: Vec<OwnedAttribute>) -> Vec<(String, String)> {
     attrs
         .into_iter()
-        .map(|attr| {
-            let fmt_name = match attr.name.prefix {
-                Some(prefix) if !attr.name.local_name.is_empty() => {
-                    format!("{}:{}", prefix, attr.name.local_name)
-                }
-                Some(prefix) => prefix,
-                None => attr.name.local_name,
-            };
-            (fmt_name, attr.value)
-        })
+        .map(|attr| (qualified_name(attr.name), attr.value))
         .collect()
 }
 
-fn parse(
-    mut data: Vec<XmlEvent>,
-    current: Option<XmlData>,
-    mut current_vec: Vec<XmlData>,
-    trim: bool,
-    current_namespace: Namespace,
-) -> Result<(Vec<XmlData>, Vec<XmlEvent>), String> {
-    if let Some(elmt) = data.pop() {
-        match elmt {
-            XmlEvent::StartElement {
-                name,
-                attributes,
-                namespace,
-            } => {
-                let fmt_name = match name.prefix {
-                    Some(prefix) if !name.local_name.is_empty() => {
-                        format!("{}:{}", prefix, name.local_name)
-                    }
-                    Some(prefix) => prefix,
-                    None => name.local_name,
-                };
-
-                let attributes = if namespace == current_namespace {
-                    attributes
-                } else {
-                    let mut attributes = attributes;
-                    let n = namespace.clone();
-                    let ns = n
-                        .into_iter()
-                        .filter(|(_k, v)| {
-                            (!v.is_empty())
-                                && (v != "http://www.w3.org/2000/xmlns/")
-                                && (v != "http://www.w3.org/XML/1998/namespace")
-                        })
-                        .map(|(k, v)| OwnedAttribute {
-                            name: OwnedName {
-                                local_name: k.to_string(),
-                                namespace: if v.is_empty() {
-                                    None
-                                } else {
-                                    Some(v.to_string())
-                                },
-                                prefix: Some("xmlns".to_string()),
-                            },
-                            value: v.to_string(),
-                        });
-                    attributes.extend(ns);
-                    attributes
-                };
-
-                let inner = XmlData {
-                    name: fmt_name,
-                    attributes: map_owned_attributes(attributes),
-                    data: None,
-                    children: Vec::new(),
-                };
-
-                let (inner, rest) = parse(data, Some(inner), Vec::new(), trim, namespace.clone())?;
-
-                if let Some(mut crnt) = current {
-                    crnt.children.extend(inner);
-                    parse(rest, Some(crnt), current_vec, trim, namespace)
-                } else {
-                    current_vec.extend(inner);
-                    parse(rest, None, current_vec, trim, namespace)
-                }
-            }
-            XmlEvent::Characters(chr) => {
-                let chr = if trim { chr.trim().to_string() } else { chr };
-                if let Some(mut crnt) = current {
-                    crnt.data = Some(chr);
-                    parse(data, Some(crnt), current_vec, trim, current_namespace)
-                } else {
-                    Err("Invalid form of XML doc".to_string())
-                }
-            }
-            XmlEvent::EndElement { name } => {
-                let fmt_name = match &name.prefix {
-                    Some(prefix) if !name.local_name.is_empty() => {
-                        format!("{}:{}", prefix, name.local_name)
-                    }
-                    Some(prefix) => prefix.clone(),
-                    None => name.local_name.clone(),
-                };
-                if let Some(crnt) = current {
-                    if crnt.name == fmt_name {
-                        current_vec.push(crnt);
-                        Ok((current_vec, data))
-                    } else {
-                        Err(format!(
-                            "Invalid end tag: expected {}, got {}",
-                            crnt.name, name.local_name
-                        ))
-                    }
-                } else {
-                    Err(format!("Invalid end tag: {}", name.local_name))
-                }
-            }
-            _ => parse(data, current, current_vec, trim, current_namespace),
-        }
-    } else if let Some(_current) = current {
-        Err("Invalid end tag".to_string())
-    } else {
-        Ok((current_vec, Vec::new()))
+fn qualified_name(name: OwnedName) -> String {
+    match name.prefix {
+        Some(prefix) if !name.local_name.is_empty() => format!("{}:{}", prefix, name.local_name),
+        Some(prefix) => prefix,
+        None => name.local_name,
     }
 }
 
@@ -212,13 +104,57 @@ impl XmlDocument {
     where
         R: Read,
     {
-        let parser = EventReader::new(source);
-        let mut events: Vec<XmlEvent> = parser.into_iter().map(|x| x.unwrap()).collect();
-        events.reverse();
+        // Elements whose end tag has not been read yet, outermost first
+        let mut open: Vec<XmlData> = Vec::new();
+        let mut data: Vec<XmlData> = Vec::new();
+
+        for event in EventReader::new(source) {
+            match event.map_err(|e| ParseXmlError(e.to_string()))? {
+                XmlEvent::StartElement {
+                    name, attributes, ..
+                } => {
+                    if open.is_empty() && !data.is_empty() {
+                        return Err(ParseXmlError("More than one root element".to_string()));
+                    }
+                    open.push(XmlData {
+                        name: qualified_name(name),
+                        attributes: map_owned_attributes(attributes),
+                        data: None,
+                        children: Vec::new(),
+                    });
+                }
+                XmlEvent::Characters(chr) => match open.last_mut() {
+                    Some(current) => current.data.get_or_insert_with(String::new).push_str(&chr),
+                    None => return Err(ParseXmlError("Invalid form of XML doc".to_string())),
+                },
+                XmlEvent::Whitespace(chr) => {
+                    if let Some(text) = open.last_mut().and_then(|current| current.data.as_mut()) {
+                        text.push_str(&chr);
+                    }
+                }
+                XmlEvent::EndElement { name } => {
+                    let mut current = open.pop().ok_or_else(|| {
+                        ParseXmlError(format!("Invalid end tag: {}", name.local_name))
+                    })?;
+                    if trim {
+                        current.data = current.data.map(|text| text.trim().to_string());
+                    }
+                    match open.last_mut() {
+                        Some(parent) => parent.children.push(current),
+                        None => data.push(current),
+                    }
+                }
+                XmlEvent::EndDocument => {}
+            }
+        }
 
-        parse(events, None, Vec::new(), trim, Namespace::empty())
-            .map(|(data, _)| XmlDocument { data })
-            .map_err(ParseXmlError)
+        if !open.is_empty() {
+            return Err(ParseXmlError("Invalid end tag".to_string()));
+        }
+        if data.is_empty() {
+            return Err(ParseXmlError("No root element".to_string()));
+        }
+        Ok(XmlDocument { data })
     }
 }
 
-- 
2.43.0


From d85030961e74d1a2a683687a58102dfe7bde9849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:37:16 +0000
Subject: [PATCH 51/75] fix: write web extension properties as valid JSON
 strings

---
 docx-core/src/documents/webextension.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/docx-core/src/documents/webextension.rs b/docx-core/src/documents/webextension.rs
index dd56cb4..d7bb84b 100644
--- a/docx-core/src/documents/webextension.rs
+++ b/docx-core/src/documents/webextension.rs
@@ -48,8 +48,7 @@ impl WebExtension {
     }
 
     pub fn property(mut self, name: impl Into<String>, value: impl Into<String>) -> Self {
-        let v = value.into();
-        let v = format!("\"{}\"", v.replace('"', "\\\""));
+        let v = serde_json::Value::String(value.into()).to_string();
         self.properties.push(WebExtensionProperty::new(name, v));
         self
     }
-- 
2.43.0


From d5610d708968c4e472bd061dc7d9341f4c9cfe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:37:16 +0000
Subject: [PATCH 52/75] fix: write hyperlink field instructions

---
 .../documents/elements/delete_instr_text.rs   |  2 +-
 .../src/documents/elements/instr_hyperlink.rs | 66 ++++++++++---------
 .../src/documents/elements/instr_text.rs      |  2 +-
 3 files changed, 38 insertions(+), 32 deletions(-)

diff --git a/docx-core/src/documents/elements/delete_instr_text.rs b/docx-core/src/documents/elements/delete_instr_text.rs
index 33e20da..873b20f 100644
--- a/docx-core/src/documents/elements/delete_instr_text.rs
+++ b/docx-core/src/documents/elements/delete_instr_text.rs
@@ -25,7 +25,7 @@ impl BuildXML for DeleteInstrText {
                 DeleteInstrText::TOC(toc) => b.add_child(toc),
                 DeleteInstrText::TC(tc) => b.add_child(tc),
                 DeleteInstrText::PAGEREF(page_ref) => b.add_child(page_ref),
-                DeleteInstrText::HYPERLINK(_link) => todo!(),
+                DeleteInstrText::HYPERLINK(link) => b.add_child(link),
                 DeleteInstrText::Unsupported(s) => b.plain_text(s),
             })?
             .close()?
diff --git a/docx-core/src/documents/elements/instr_hyperlink.rs b/docx-core/src/documents/elements/instr_hyperlink.rs
index 9faf170..8eff12d 100644
--- a/docx-core/src/documents/elements/instr_hyperlink.rs
+++ b/docx-core/src/documents/elements/instr_hyperlink.rs
@@ -1,4 +1,9 @@
 use serde::Serialize;
+use std::io::Write;
+
+use crate::documents::field_args::{quote_field_arg, split_field_args};
+use crate::documents::*;
+use crate::xml_builder::XMLBuilder;
 
 // https://c-rex.net/projects/samples/ooxml/e1/Part4/OOXML_P4_DOCX_HYPERLINKHYPERLINK_topic_ID0EFYG1.html
 #[derive(Serialize, Debug, Clone, PartialEq, Default)]
@@ -30,40 +35,41 @@ impl std::str::FromStr for InstrHyperlink {
     type Err = ();
 
     fn from_str(instr: &str) -> Result<Self, Self::Err> {
-        let mut s = instr.split(' ');
+        let mut args = split_field_args(instr).into_iter();
         let mut target = "".to_string();
         let mut anchor = false;
-        loop {
-            if let Some(i) = s.next() {
-                match i {
-                    "\\l" => {
-                        anchor = true;
-                    }
-                    "\\m" => {
-                        // TODO:
-                    }
-                    "\\n" => {
-                        // TODO:
-                    }
-                    "\\o" => {
-                        // TODO: Support later
-                        let _ = s.next();
-                    }
-                    "\\t" => {
-                        // TODO: Support later
-                        let _ = s.next();
-                    }
-                    _ => {
-                        target = i.replace("&quot;", "").replace('\"', "").to_string();
-                    }
-                }
-            } else {
-                // FIXME: For now, return error if target is not found
-                if target.is_empty() {
-                    return Err(());
+        while let Some(arg) = args.next() {
+            if !arg.is_switch() {
+                target = arg.text;
+                continue;
+            }
+            match arg.text.as_str() {
+                "\\l" => anchor = true,
+                // TODO: Support later
+                "\\o" | "\\t" => {
+                    let _ = args.next();
                 }
-                return Ok(Self { target, anchor });
+                // TODO: \m and \n
+                _ => {}
             }
         }
+        // FIXME: For now, return error if target is not found
+        if target.is_empty() {
+            return Err(());
+        }
+        Ok(Self { target, anchor })
+    }
+}
+
+impl BuildXML for InstrHyperlink {
+    fn build_to<W: Write>(
+        &self,
+        stream: crate::xml::writer::EventWriter<W>,
+    ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        XMLBuilder::from(stream)
+            .plain_text("HYPERLINK ")?
+            .apply_if(self.anchor, |b| b.plain_text("\\l "))?
+            .plain_text(&quote_field_arg(&self.target))?
+            .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/instr_text.rs b/docx-core/src/documents/elements/instr_text.rs
index e063933..84ac94c 100644
--- a/docx-core/src/documents/elements/instr_text.rs
+++ b/docx-core/src/documents/elements/instr_text.rs
@@ -29,7 +29,7 @@ impl BuildXML for Box<InstrText> {
                 InstrText::PAGEREF(page_ref) => b.add_child(page_ref),
                 InstrText::PAGE(page) => b.add_child(page),
                 InstrText::NUMPAGES(page) => b.add_child(page),
-                InstrText::HYPERLINK(_link) => todo!(),
+                InstrText::HYPERLINK(link) => b.add_child(link),
                 InstrText::Unsupported(s) => b.plain_text(s),
             })?
             .close()?
-- 
2.43.0


From 45b7417b3e80318ef865cbf93525fde408943ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:37:28 +0000
Subject: [PATCH 53/75] fix: keep any text when entry and page reference fields
 are parsed and written

---
 .../src/documents/elements/instr_pageref.rs   | 22 ++++-----
 docx-core/src/documents/elements/instr_tc.rs  | 48 +++++++------------
 docx-core/src/documents/field_args.rs         | 10 ++++
 3 files changed, 38 insertions(+), 42 deletions(-)

diff --git a/docx-core/src/documents/elements/instr_pageref.rs b/docx-core/src/documents/elements/instr_pageref.rs
index f1829cc..af385db 100644
--- a/docx-core/src/documents/elements/instr_pageref.rs
+++ b/docx-core/src/documents/elements/instr_pageref.rs
@@ -1,6 +1,7 @@
 use serde::Serialize;
 use std::io::Write;
 
+use crate::documents::field_args::{field_arg, split_field_args};
 use crate::documents::*;
 use crate::xml_builder::XMLBuilder;
 
@@ -39,7 +40,7 @@ impl BuildXML for InstrPAGEREF {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
             .plain_text("PAGEREF ")?
-            .plain_text(&self.page_ref)?
+            .plain_text(&field_arg(&self.page_ref))?
             .apply_if(self.relative_position, |b| b.plain_text(" \\p"))?
             .apply_if(self.hyperlink, |b| b.plain_text(" \\h"))?
             .into_inner()
@@ -50,20 +51,17 @@ impl std::str::FromStr for InstrPAGEREF {
     type Err = ();
 
     fn from_str(instr: &str) -> Result<Self, Self::Err> {
-        let mut s = instr.split(' ');
-        let text = s.next();
+        let mut args = split_field_args(instr).into_iter();
+        let text = args.next().map(|arg| arg.text);
         let mut page_ref = InstrPAGEREF::new(text.unwrap_or_default());
-        loop {
-            if let Some(i) = s.next() {
-                match i {
-                    "\\h" => page_ref = page_ref.hyperlink(),
-                    "\\p" => page_ref = page_ref.relative_position(),
-                    _ => {}
-                }
-            } else {
-                return Ok(page_ref);
+        for arg in args.filter(|arg| arg.is_switch()) {
+            match arg.text.as_str() {
+                "\\h" => page_ref = page_ref.hyperlink(),
+                "\\p" => page_ref = page_ref.relative_position(),
+                _ => {}
             }
         }
+        Ok(page_ref)
     }
 }
 
diff --git a/docx-core/src/documents/elements/instr_tc.rs b/docx-core/src/documents/elements/instr_tc.rs
index 19954db..f6da4c8 100644
--- a/docx-core/src/documents/elements/instr_tc.rs
+++ b/docx-core/src/documents/elements/instr_tc.rs
@@ -1,7 +1,7 @@
 use serde::Serialize;
 use std::io::Write;
 
-use crate::documents::field_args::quote_field_arg;
+use crate::documents::field_args::{quote_field_arg, split_field_args};
 use crate::documents::*;
 use crate::xml_builder::XMLBuilder;
 
@@ -64,43 +64,31 @@ impl BuildXML for InstrTC {
     }
 }
 
-fn parse_level(i: &str) -> Option<usize> {
-    let r = i.replace("&quot;", "").replace('\"', "");
-    if let Ok(l) = usize::from_str(&r) {
-        return Some(l);
-    }
-    None
-}
-
 impl std::str::FromStr for InstrTC {
     type Err = ();
 
     fn from_str(instr: &str) -> Result<Self, Self::Err> {
-        let mut s = instr.split(' ');
-        let text = s.next();
-        let mut tc = InstrTC::new(text.unwrap_or_default());
-        loop {
-            if let Some(i) = s.next() {
-                match i {
-                    "\\f" => {
-                        if let Some(r) = s.next() {
-                            let r = r.replace("&quot;", "").replace('\"', "");
-                            tc = tc.item_type_identifier(r);
-                        }
+        let mut args = split_field_args(instr).into_iter();
+        let mut tc = InstrTC::new(args.next().map(|arg| arg.text).unwrap_or_default());
+        while let Some(arg) = args.next() {
+            if !arg.is_switch() {
+                continue;
+            }
+            match arg.text.as_str() {
+                "\\f" => {
+                    if let Some(identifier) = args.next() {
+                        tc = tc.item_type_identifier(identifier.text);
                     }
-                    "\\l" => {
-                        if let Some(r) = s.next() {
-                            if let Some(l) = parse_level(r) {
-                                tc = tc.level(l);
-                            }
-                        }
+                }
+                "\\l" => {
+                    if let Some(Ok(level)) = args.next().map(|level| usize::from_str(&level.text)) {
+                        tc = tc.level(level);
                     }
-                    "\\n" => tc = tc.omits_page_number(),
-                    _ => {}
                 }
-            } else {
-                return Ok(tc);
+                "\\n" => tc = tc.omits_page_number(),
+                _ => {}
             }
         }
+        Ok(tc)
     }
 }
diff --git a/docx-core/src/documents/field_args.rs b/docx-core/src/documents/field_args.rs
index 8cb2132..d86cfbb 100644
--- a/docx-core/src/documents/field_args.rs
+++ b/docx-core/src/documents/field_args.rs
@@ -16,6 +16,16 @@ pub(crate) fn quote_field_arg(text: &str) -> String {
     format!("\"{}\"", text.replace('\\', "\\\\").replace('"', "\\\""))
 }
 
+/// Writes an argument for a field instruction, quoted if it has to be.
+pub(crate) fn field_arg(text: &str) -> String {
+    let plain = |c: char| !c.is_whitespace() && c != '"' && c != '\\';
+    if !text.is_empty() && text.chars().all(plain) {
+        text.to_string()
+    } else {
+        quote_field_arg(text)
+    }
+}
+
 /// Splits a field instruction into its arguments and switches.
 pub(crate) fn split_field_args(instr: &str) -> Vec<FieldArg> {
     // Quotes may still be escaped as they are in the XML.
-- 
2.43.0


From 79c36dc5e158145fad340eaa12f5adc9c2d1582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:56:02 +0000
Subject: [PATCH 54/75] fix: report truncated or endlessly nested XML as an
 error and keep divided texts whole

---
 docx-core/src/reader/xml_parser.rs | 111 ++++++++++++++---------------
 1 file changed, 54 insertions(+), 57 deletions(-)

diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index 8ef0eda..7ff93ff 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -57,11 +57,17 @@ pub enum XmlEvent {
     EndDocument,
 }
 
+/// The deepest nesting of elements that is read. The readers call each other once
+/// or more for every level, so that input nested without bound would exhaust the stack.
+const MAX_DEPTH: usize = 256;
+
 pub struct EventReader<R: Read> {
     reader: Reader<BufReader<R>>,
     buf: Vec<u8>,
     pending: VecDeque<XmlEvent>,
+    depth: usize,
     finished: bool,
+    error: Option<quick_xml::Error>,
 }
 
 impl<R: Read> EventReader<R> {
@@ -77,12 +83,25 @@ impl<R: Read> EventReader<R> {
             reader,
             buf: Vec::new(),
             pending: VecDeque::new(),
+            depth: 0,
             finished: false,
+            error: None,
         }
     }
 
+    /// Read the next event. Every call after the end of the document, or after an error, is an
+    /// error, so that no reader can wait for an end tag that is never going to come.
     pub fn next_event(&mut self) -> Result<XmlEvent, quick_xml::Error> {
-        self.read_next()
+        if let Some(error) = &self.error {
+            return Err(error.clone());
+        }
+        let event = self.read_next();
+        match &event {
+            Ok(XmlEvent::EndDocument) => self.error = Some(unexpected_end()),
+            Err(error) => self.error = Some(error.clone()),
+            _ => {}
+        }
+        event
     }
 
     fn read_next(&mut self) -> Result<XmlEvent, quick_xml::Error> {
@@ -90,61 +109,16 @@ impl<R: Read> EventReader<R> {
             return Ok(event);
         }
 
+        // Comments, processing instructions and CDATA sections do not divide a text.
+        let mut text = String::new();
         loop {
             self.buf.clear();
             match self.reader.read_event_into(&mut self.buf)? {
                 Event::Start(element) => {
-                    let decoder = self.reader.decoder();
-                    let event = Self::build_start_event(element, decoder)?;
-                    return Ok(event);
-                }
-                Event::Empty(element) => {
-                    let decoder = self.reader.decoder();
-                    let event = Self::build_start_event(element, decoder)?;
-                    if let XmlEvent::StartElement { name, .. } = &event {
-                        self.pending
-                            .push_back(XmlEvent::EndElement { name: name.clone() });
+                    if self.depth == MAX_DEPTH {
+                        return Err(too_deep());
                     }
-                    return Ok(event);
-                }
-                Event::End(element) => {
-                    let name = build_name_from_end(&element)?;
-                    return Ok(XmlEvent::EndElement { name });
-                }
-                Event::Text(text) => {
-                    let text = decode_text(text)?;
-                    return self.read_text_event(text);
-                }
-                Event::GeneralRef(reference) => {
-                    let text = decode_reference(reference)?;
-                    return self.read_text_event(text);
-                }
-                Event::CData(text) => {
-                    let decoded = self.reader.decoder().decode(text.as_ref())?.into_owned();
-                    return Ok(XmlEvent::Characters(decoded));
-                }
-                Event::Eof => {
-                    self.finished = true;
-                    return Ok(XmlEvent::EndDocument);
-                }
-                Event::Decl(_) | Event::PI(_) | Event::Comment(_) | Event::DocType(_) => {
-                    // Skip non-structural events
-                }
-            }
-        }
-    }
-
-    fn read_text_event(&mut self, mut text: String) -> Result<XmlEvent, quick_xml::Error> {
-        loop {
-            self.buf.clear();
-            match self.reader.read_event_into(&mut self.buf)? {
-                Event::Text(next_text) => {
-                    text.push_str(&decode_text(next_text)?);
-                }
-                Event::GeneralRef(reference) => {
-                    text.push_str(&decode_reference(reference)?);
-                }
-                Event::Start(element) => {
+                    self.depth += 1;
                     let decoder = self.reader.decoder();
                     let event = Self::build_start_event(element, decoder)?;
                     self.pending.push_back(event);
@@ -166,24 +140,35 @@ impl<R: Read> EventReader<R> {
                 }
                 Event::End(element) => {
                     let name = build_name_from_end(&element)?;
+                    self.depth = self.depth.saturating_sub(1);
                     self.pending.push_back(XmlEvent::EndElement { name });
                     break;
                 }
-                Event::CData(text) => {
-                    let decoded = self.reader.decoder().decode(text.as_ref())?.into_owned();
-                    self.pending.push_back(XmlEvent::Characters(decoded));
-                    break;
+                Event::Text(next_text) => {
+                    text.push_str(&decode_text(next_text)?);
+                }
+                Event::GeneralRef(reference) => {
+                    text.push_str(&decode_reference(reference)?);
+                }
+                Event::CData(cdata) => {
+                    text.push_str(&self.reader.decoder().decode(cdata.as_ref())?);
                 }
                 Event::Eof => {
+                    if self.depth > 0 {
+                        return Err(unexpected_end());
+                    }
                     self.pending.push_back(XmlEvent::EndDocument);
                     break;
                 }
                 Event::Decl(_) | Event::PI(_) | Event::Comment(_) | Event::DocType(_) => {
-                    break;
+                    // Skip non-structural events
                 }
             }
         }
 
+        if text.is_empty() {
+            return self.pending.pop_front().ok_or_else(unexpected_end);
+        }
         if text
             .as_bytes()
             .iter()
@@ -216,7 +201,7 @@ impl<R: Read> Iterator for EventReader<R> {
         if self.finished {
             return None;
         }
-        match self.read_next() {
+        match self.next_event() {
             Ok(XmlEvent::EndDocument) => {
                 self.finished = true;
                 Some(Ok(XmlEvent::EndDocument))
@@ -230,6 +215,18 @@ impl<R: Read> Iterator for EventReader<R> {
     }
 }
 
+fn unexpected_end() -> quick_xml::Error {
+    std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()
+}
+
+fn too_deep() -> quick_xml::Error {
+    std::io::Error::new(
+        std::io::ErrorKind::InvalidData,
+        "elements are nested too deeply",
+    )
+    .into()
+}
+
 fn build_name_from_start(element: &BytesStart<'_>) -> Result<OwnedName, quick_xml::Error> {
     let name = element.name();
     Ok(split_qname(name.as_ref()))
-- 
2.43.0


From 4f6ff0a251dd9d6066d9b68912d0c0ca64365e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:56:23 +0000
Subject: [PATCH 55/75] fix: end reading with an error when a part breaks off
 inside ignored elements, properties or numberings

---
 docx-core/src/reader/custom_properties.rs | 12 ++++++++----
 docx-core/src/reader/ignore.rs            | 13 ++++++++-----
 docx-core/src/reader/numberings.rs        |  2 ++
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/docx-core/src/reader/custom_properties.rs b/docx-core/src/reader/custom_properties.rs
index dfc71f2..97e06d6 100644
--- a/docx-core/src/reader/custom_properties.rs
+++ b/docx-core/src/reader/custom_properties.rs
@@ -24,10 +24,13 @@ impl FromXML for CustomProps {
                                         if let Ok(VtXMLElement::Lpwstr) =
                                             VtXMLElement::from_str(&name.local_name)
                                         {
-                                            let e = r.next_event();
-                                            if let Ok(XmlEvent::Characters(c)) = e {
-                                                props = props.add_custom_property(&key, c)
-                                            }
+                                            let value = match r.next_event() {
+                                                Ok(XmlEvent::Characters(c)) => c,
+                                                Ok(XmlEvent::Whitespace(c)) => c,
+                                                Ok(_) => String::new(),
+                                                Err(_) => return Err(ReaderError::XMLReadError),
+                                            };
+                                            props = props.add_custom_property(&key, value);
                                         }
                                     }
                                     Ok(XmlEvent::EndElement { name, .. }) => {
@@ -37,6 +40,7 @@ impl FromXML for CustomProps {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
diff --git a/docx-core/src/reader/ignore.rs b/docx-core/src/reader/ignore.rs
index 727addf..12ec11a 100644
--- a/docx-core/src/reader/ignore.rs
+++ b/docx-core/src/reader/ignore.rs
@@ -6,12 +6,15 @@ use super::*;
 pub(crate) fn ignore_element<R: Read>(el: XMLElement, ignore: XMLElement, r: &mut EventReader<R>) {
     if ignore == el {
         loop {
-            let e = r.next_event();
-            if let Ok(XmlEvent::EndElement { name, .. }) = e {
-                let e = XMLElement::from_str(&name.local_name).unwrap();
-                if e == ignore {
-                    break;
+            match r.next_event() {
+                Ok(XmlEvent::EndElement { name, .. }) => {
+                    let e = XMLElement::from_str(&name.local_name).unwrap();
+                    if e == ignore {
+                        break;
+                    }
                 }
+                Err(_) => break,
+                _ => {}
             }
         }
     }
diff --git a/docx-core/src/reader/numberings.rs b/docx-core/src/reader/numberings.rs
index 5034add..cb9e5bd 100644
--- a/docx-core/src/reader/numberings.rs
+++ b/docx-core/src/reader/numberings.rs
@@ -54,6 +54,7 @@ impl FromXML for Numberings {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
@@ -100,6 +101,7 @@ impl FromXML for Numberings {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
-- 
2.43.0


From ac200a4a80d279830f5f94ec2991fb139523366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:56:23 +0000
Subject: [PATCH 56/75] fix: read blank field instructions and do not take
 later text for an empty one

---
 docx-core/src/reader/run.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 9bd555e..aa0dd22 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -109,19 +109,11 @@ impl ElementReader for Run {
                                 XMLElement::InstrText => loop {
                                     let e = r.next_event();
                                     match e {
-                                        Ok(XmlEvent::Characters(c)) => {
+                                        Ok(XmlEvent::Characters(c) | XmlEvent::Whitespace(c)) => {
                                             run.children.push(RunChild::InstrTextString(c));
                                             break;
                                         }
-                                        Ok(XmlEvent::EndElement { name, .. }) => {
-                                            let e = XMLElement::from_str(&name.local_name).unwrap();
-                                            match e {
-                                                XMLElement::Run => {
-                                                    return Ok(run);
-                                                }
-                                                _ => {}
-                                            }
-                                        }
+                                        Ok(XmlEvent::EndElement { .. }) => break,
                                         Err(_) => return Err(ReaderError::XMLReadError),
                                         _ => {}
                                     }
-- 
2.43.0


From 19c030bf809ee51f32f2537d61ff809dbc2360c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:57:59 +0000
Subject: [PATCH 57/75] fix: look attributes up by name when reading instead of
 by position

---
 docx-core/src/reader/attributes/bool_value.rs |  6 +----
 docx-core/src/reader/level.rs                 | 25 +++++++++++++------
 docx-core/src/reader/level_override.rs        |  6 +++--
 docx-core/src/reader/numbering_property.rs    |  8 ++++--
 docx-core/src/reader/numberings.rs            | 13 +++++++---
 docx-core/src/reader/paragraph_property.rs    | 16 ++++++++----
 docx-core/src/reader/run.rs                   |  4 +--
 docx-core/src/reader/run_property.rs          | 22 ++++++++++++----
 docx-core/src/reader/style.rs                 |  4 ++-
 docx-core/src/reader/table.rs                 |  4 ++-
 docx-core/src/reader/table_cell_property.rs   | 16 ++++++------
 docx-core/src/reader/table_property.rs        |  6 +++--
 12 files changed, 85 insertions(+), 45 deletions(-)

diff --git a/docx-core/src/reader/attributes/bool_value.rs b/docx-core/src/reader/attributes/bool_value.rs
index d095441..184a94e 100644
--- a/docx-core/src/reader/attributes/bool_value.rs
+++ b/docx-core/src/reader/attributes/bool_value.rs
@@ -5,11 +5,7 @@ pub fn is_false(v: &str) -> bool {
 }
 
 pub fn read_bool(attrs: &[OwnedAttribute]) -> bool {
-    if let Some(v) = attrs
-        .iter()
-        .find(|attr| attr.name.local_name == "val")
-        .or_else(|| attrs.first())
-    {
+    if let Some(v) = attrs.iter().find(|attr| attr.name.local_name == "val") {
         return !is_false(&v.value);
     }
     true
diff --git a/docx-core/src/reader/level.rs b/docx-core/src/reader/level.rs
index 4e2fd38..2b89302 100644
--- a/docx-core/src/reader/level.rs
+++ b/docx-core/src/reader/level.rs
@@ -36,8 +36,7 @@ impl ElementReader for Level {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::ParagraphStyle => {
-                            let id = attributes[0].value.clone();
-                            style_id = Some(id);
+                            style_id = read_val(&attributes).or(style_id);
                         }
                         XMLElement::ParagraphProperty => {
                             if let Ok(pr) = ParagraphProperty::read(r, attrs) {
@@ -52,27 +51,37 @@ impl ElementReader for Level {
                             continue;
                         }
                         XMLElement::Start => {
-                            start = Start::new(usize::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                start = Start::new(usize::from_str(&v)?);
+                            }
                         }
                         XMLElement::NumberFormat => {
-                            num_fmt = NumberFormat::new(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                num_fmt = NumberFormat::new(v);
+                            }
                         }
                         XMLElement::Suffix => {
-                            suffix = LevelSuffixType::from_str(&attributes[0].value)?;
+                            if let Some(v) = read_val(&attributes) {
+                                suffix = LevelSuffixType::from_str(&v)?;
+                            }
                         }
                         XMLElement::IsLgl => {
                             is_lgl = Some(IsLgl::new());
                         }
                         XMLElement::LevelText => {
-                            level_text = LevelText::new(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                level_text = LevelText::new(v);
+                            }
                         }
                         XMLElement::LevelRestart => {
-                            if let Ok(v) = u32::from_str(&attributes[0].value) {
+                            if let Some(Ok(v)) = read_val(&attributes).map(|v| u32::from_str(&v)) {
                                 level_restart = Some(LevelRestart::new(v));
                             }
                         }
                         XMLElement::LevelJustification => {
-                            jc = LevelJc::new(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                jc = LevelJc::new(v);
+                            }
                         }
                         XMLElement::Indent => {
                             let i = read_indent(&attributes)?;
diff --git a/docx-core/src/reader/level_override.rs b/docx-core/src/reader/level_override.rs
index 4cfc5eb..c29a902 100644
--- a/docx-core/src/reader/level_override.rs
+++ b/docx-core/src/reader/level_override.rs
@@ -8,7 +8,7 @@ impl ElementReader for LevelOverride {
         r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        if let Ok(level) = usize::from_str(&attrs[0].value) {
+        if let Some(Ok(level)) = read(attrs, "ilvl").map(|v| usize::from_str(&v)) {
             let mut o = LevelOverride::new(level);
             loop {
                 let e = r.next_event();
@@ -19,7 +19,9 @@ impl ElementReader for LevelOverride {
                         let e = XMLElement::from_str(&name.local_name).unwrap();
                         match e {
                             XMLElement::StartOverride => {
-                                if let Ok(val) = usize::from_str(&attributes[0].value) {
+                                if let Some(Ok(val)) =
+                                    read_val(&attributes).map(|v| usize::from_str(&v))
+                                {
                                     o = o.start(val);
                                 }
                                 continue;
diff --git a/docx-core/src/reader/numbering_property.rs b/docx-core/src/reader/numbering_property.rs
index f1678bf..cc28d08 100644
--- a/docx-core/src/reader/numbering_property.rs
+++ b/docx-core/src/reader/numbering_property.rs
@@ -19,11 +19,15 @@ impl ElementReader for NumberingProperty {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::IndentLevel => {
-                            level = Some(usize::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                level = Some(usize::from_str(&v)?);
+                            }
                             continue;
                         }
                         XMLElement::NumberingId => {
-                            id = Some(usize::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                id = Some(usize::from_str(&v)?);
+                            }
                             continue;
                         }
                         _ => {}
diff --git a/docx-core/src/reader/numberings.rs b/docx-core/src/reader/numberings.rs
index cb9e5bd..7bdcd33 100644
--- a/docx-core/src/reader/numberings.rs
+++ b/docx-core/src/reader/numberings.rs
@@ -38,11 +38,14 @@ impl FromXML for Numberings {
                                                 abs_num = abs_num.add_level(l);
                                             }
                                             XMLElement::StyleLink => {
-                                                abs_num = abs_num.style_link(&attributes[0].value)
+                                                if let Some(v) = read_val(&attributes) {
+                                                    abs_num = abs_num.style_link(v)
+                                                }
                                             }
                                             XMLElement::NumStyleLink => {
-                                                abs_num =
-                                                    abs_num.num_style_link(&attributes[0].value)
+                                                if let Some(v) = read_val(&attributes) {
+                                                    abs_num = abs_num.num_style_link(v)
+                                                }
                                             }
                                             _ => {}
                                         }
@@ -80,7 +83,9 @@ impl FromXML for Numberings {
                                         let e = XMLElement::from_str(&name.local_name).unwrap();
                                         match e {
                                             XMLElement::AbstractNumberingId => {
-                                                abs_num_id = usize::from_str(&attributes[0].value)?
+                                                if let Some(v) = read_val(&attributes) {
+                                                    abs_num_id = usize::from_str(&v)?
+                                                }
                                             }
                                             XMLElement::LvlOverride => {
                                                 if let Ok(o) =
diff --git a/docx-core/src/reader/paragraph_property.rs b/docx-core/src/reader/paragraph_property.rs
index f51faf3..b4de83b 100644
--- a/docx-core/src/reader/paragraph_property.rs
+++ b/docx-core/src/reader/paragraph_property.rs
@@ -42,14 +42,18 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::Justification => {
-                            if let Ok(v) = AlignmentType::from_str(&attributes[0].value) {
-                                p = p.align(v);
+                            if let Some(v) = read_val(&attributes) {
+                                if let Ok(v) = AlignmentType::from_str(&v) {
+                                    p = p.align(v);
+                                }
                             }
                             continue;
                         }
                         XMLElement::TextAlignment => {
-                            if let Ok(v) = TextAlignmentType::from_str(&attributes[0].value) {
-                                p = p.text_alignment(v);
+                            if let Some(v) = read_val(&attributes) {
+                                if let Ok(v) = TextAlignmentType::from_str(&v) {
+                                    p = p.text_alignment(v);
+                                }
                             }
                             continue;
                         }
@@ -62,7 +66,9 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::ParagraphStyle => {
-                            p = p.style(&attributes[0].value);
+                            if let Some(v) = read_val(&attributes) {
+                                p = p.style(&v);
+                            }
                             continue;
                         }
                         XMLElement::RunProperty => {
diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index aa0dd22..5efe912 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -87,8 +87,8 @@ impl ElementReader for Run {
                                 XMLElement::Text => text_state = TextState::Text,
                                 XMLElement::DeleteText => text_state = TextState::Delete,
                                 XMLElement::Break => {
-                                    if let Some(a) = attributes.first() {
-                                        run = run.add_break(BreakType::from_str(&a.value)?)
+                                    if let Some(v) = read(&attributes, "type") {
+                                        run = run.add_break(BreakType::from_str(&v)?)
                                     } else {
                                         run = run.add_break(BreakType::TextWrapping)
                                     }
diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index e109460..60c2452 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -107,7 +107,11 @@ impl ElementReader for RunProperty {
                                 rp = rp.ptab(v)
                             }
                         }
-                        XMLElement::Highlight => rp = rp.highlight(attributes[0].value.clone()),
+                        XMLElement::Highlight => {
+                            if let Some(v) = read_val(&attributes) {
+                                rp = rp.highlight(v)
+                            }
+                        }
                         XMLElement::Strike => {
                             rp.strike = Some(if read_bool(&attributes) {
                                 Strike::new()
@@ -123,13 +127,17 @@ impl ElementReader for RunProperty {
                             });
                         }
                         XMLElement::VertAlign => {
-                            if let Ok(v) = VertAlignType::from_str(&attributes[0].value) {
-                                rp = rp.vert_align(v)
+                            if let Some(v) = read_val(&attributes) {
+                                if let Ok(v) = VertAlignType::from_str(&v) {
+                                    rp = rp.vert_align(v)
+                                }
                             }
                         }
                         XMLElement::Color => rp = read_color(rp, &attributes),
                         XMLElement::Size => {
-                            rp = rp.size(f64::from_str(&attributes[0].value)? as usize)
+                            if let Some(v) = read_val(&attributes) {
+                                rp = rp.size(f64::from_str(&v)? as usize)
+                            }
                         }
                         XMLElement::Spacing => {
                             if let Some(v) = read_val(&attributes) {
@@ -152,7 +160,11 @@ impl ElementReader for RunProperty {
                                 rp = rp.fonts(f);
                             }
                         }
-                        XMLElement::Underline => rp = rp.underline(attributes[0].value.clone()),
+                        XMLElement::Underline => {
+                            if let Some(v) = read_val(&attributes) {
+                                rp = rp.underline(v)
+                            }
+                        }
                         XMLElement::Italic => {
                             if !read_bool(&attributes) {
                                 rp = rp.disable_italic();
diff --git a/docx-core/src/reader/style.rs b/docx-core/src/reader/style.rs
index 9d611ab..bb9557a 100644
--- a/docx-core/src/reader/style.rs
+++ b/docx-core/src/reader/style.rs
@@ -30,7 +30,9 @@ impl ElementReader for Style {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::Name => {
-                            style = style.name(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                style = style.name(v);
+                            }
                             continue;
                         }
                         XMLElement::BasedOn => {
diff --git a/docx-core/src/reader/table.rs b/docx-core/src/reader/table.rs
index 5c0e511..82d4211 100644
--- a/docx-core/src/reader/table.rs
+++ b/docx-core/src/reader/table.rs
@@ -35,7 +35,9 @@ impl ElementReader for Table {
                             }
                         }
                         XMLElement::Justification => {
-                            t = t.align(TableAlignmentType::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                t = t.align(TableAlignmentType::from_str(&v)?);
+                            }
                         }
                         XMLElement::TableIndent => {
                             let (w, _) = read_width(&attributes)?;
diff --git a/docx-core/src/reader/table_cell_property.rs b/docx-core/src/reader/table_cell_property.rs
index 8aa7218..9579b6b 100644
--- a/docx-core/src/reader/table_cell_property.rs
+++ b/docx-core/src/reader/table_cell_property.rs
@@ -31,21 +31,21 @@ impl ElementReader for TableCellProperty {
                             property = property.width(w, width_type);
                         }
                         XMLElement::TableGridSpan => {
-                            if let Some(a) = attributes.first() {
-                                property = property.grid_span(usize::from_str(&a.value)?)
+                            if let Some(v) = read_val(&attributes) {
+                                property = property.grid_span(usize::from_str(&v)?)
                             }
                         }
                         XMLElement::TableVMerge => {
-                            if let Some(a) = attributes.first() {
-                                property = property.vertical_merge(VMergeType::from_str(&a.value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                property = property.vertical_merge(VMergeType::from_str(&v)?);
                             } else {
                                 // Treat as a continue without attribute
                                 property = property.vertical_merge(VMergeType::Continue)
                             }
                         }
                         XMLElement::VAlign => {
-                            if let Some(a) = attributes.first() {
-                                property = property.vertical_align(VAlignType::from_str(&a.value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                property = property.vertical_align(VAlignType::from_str(&v)?);
                             }
                         }
                         XMLElement::Shading => {
@@ -54,8 +54,8 @@ impl ElementReader for TableCellProperty {
                             }
                         }
                         XMLElement::TextDirection => {
-                            if let Some(a) = attributes.first() {
-                                if let Ok(v) = TextDirectionType::from_str(&a.value) {
+                            if let Some(v) = read_val(&attributes) {
+                                if let Ok(v) = TextDirectionType::from_str(&v) {
                                     property = property.text_direction(v);
                                 }
                             }
diff --git a/docx-core/src/reader/table_property.rs b/docx-core/src/reader/table_property.rs
index b10a2c2..3ca3d1b 100644
--- a/docx-core/src/reader/table_property.rs
+++ b/docx-core/src/reader/table_property.rs
@@ -36,8 +36,10 @@ impl ElementReader for TableProperty {
                             }
                         }
                         XMLElement::Justification => {
-                            if let Ok(v) = TableAlignmentType::from_str(&attributes[0].value) {
-                                tp = tp.align(v);
+                            if let Some(v) = read_val(&attributes) {
+                                if let Ok(v) = TableAlignmentType::from_str(&v) {
+                                    tp = tp.align(v);
+                                }
                             }
                         }
                         XMLElement::TableIndent => {
-- 
2.43.0


From cca58e8335a2b89aaa12c15c7de8c62928b84f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:57:59 +0000
Subject: [PATCH 58/75] fix: report missing and malformed attributes as errors
 instead of panicking

---
 docx-core/src/documents/content_types.rs | 11 +++++++----
 docx-core/src/reader/attributes/val.rs   |  4 ++--
 docx-core/src/reader/attributes/width.rs |  2 +-
 docx-core/src/reader/comment.rs          |  2 +-
 docx-core/src/reader/comment_extended.rs |  2 +-
 5 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index db1cf12..ed58103 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -4,7 +4,7 @@ use std::collections::BTreeMap;
 use std::io::{Read, Write};
 
 use crate::documents::BuildXML;
-use crate::reader::{FromXML, ReaderError};
+use crate::reader::{read, FromXML, ReaderError};
 use crate::xml_builder::*;
 
 #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
@@ -204,9 +204,12 @@ impl FromXML for ContentTypes {
             match e {
                 Ok(XmlEvent::StartElement { attributes, .. }) => {
                     if depth == 1 {
-                        let namespace = attributes[0].value.clone();
-                        let path = attributes[1].value.clone();
-                        s = s.add_content(path, namespace);
+                        let content_type = read(&attributes, "ContentType");
+                        let path = read(&attributes, "PartName")
+                            .or_else(|| read(&attributes, "Extension"));
+                        if let (Some(path), Some(content_type)) = (path, content_type) {
+                            s = s.add_content(path, content_type);
+                        }
                     }
                     depth += 1;
                 }
diff --git a/docx-core/src/reader/attributes/val.rs b/docx-core/src/reader/attributes/val.rs
index 0f8dc21..8753661 100644
--- a/docx-core/src/reader/attributes/val.rs
+++ b/docx-core/src/reader/attributes/val.rs
@@ -16,8 +16,8 @@ pub fn read_val(attrs: &[OwnedAttribute]) -> Option<String> {
 
 pub fn value_to_dax(v: &str) -> Result<i32, ReaderError> {
     if v.ends_with("pt") {
-        let v = f64::from_str(&v.replace("pt", ""))? as i32;
-        Ok(v * 20)
+        let v = f64::from_str(&v.replace("pt", ""))?;
+        Ok((v * 20.0) as i32)
     } else {
         Ok(f64::from_str(v)? as i32)
     }
diff --git a/docx-core/src/reader/attributes/width.rs b/docx-core/src/reader/attributes/width.rs
index 2a01be5..b33f87f 100644
--- a/docx-core/src/reader/attributes/width.rs
+++ b/docx-core/src/reader/attributes/width.rs
@@ -15,7 +15,7 @@ pub fn read_width(attrs: &[OwnedAttribute]) -> Result<(isize, WidthType), Reader
             width_type = WidthType::from_str(&a.value)?;
         } else if local_name == "w" {
             let v = a.value.replace('%', "");
-            w = f64::from_str(&v).expect("should read width.") as isize;
+            w = f64::from_str(&v)? as isize;
         }
     }
     Ok((w, width_type))
diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index a34b5f6..be344d2 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -8,7 +8,7 @@ impl ElementReader for Comment {
         r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        let id = usize::from_str(&read(attrs, "id").expect("should comment id exists."))?;
+        let id = usize::from_str(&read(attrs, "id").ok_or(ReaderError::XMLReadError)?)?;
         let mut comment = Comment::new(id);
         if let Some(author) = read(attrs, "author") {
             comment = comment.author(author);
diff --git a/docx-core/src/reader/comment_extended.rs b/docx-core/src/reader/comment_extended.rs
index 02a2ceb..6c81721 100644
--- a/docx-core/src/reader/comment_extended.rs
+++ b/docx-core/src/reader/comment_extended.rs
@@ -7,7 +7,7 @@ impl ElementReader for CommentExtended {
         _r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        let para_id = read(attrs, "paraId").expect("should comment id exists.");
+        let para_id = read(attrs, "paraId").ok_or(ReaderError::XMLReadError)?;
         let mut comment_extended = CommentExtended::new(para_id);
         if let Some(done) = read(attrs, "done") {
             if !is_false(&done) {
-- 
2.43.0


From 66079cc1409d12696ae640bee99568b895ff8849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:57:59 +0000
Subject: [PATCH 59/75] fix: report damaged parts of an archive as errors
 instead of panicking

---
 docx-core/src/reader/read_zip.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/read_zip.rs b/docx-core/src/reader/read_zip.rs
index df37556..447d90b 100644
--- a/docx-core/src/reader/read_zip.rs
+++ b/docx-core/src/reader/read_zip.rs
@@ -2,6 +2,8 @@ use std::io::{Cursor, Read};
 
 use super::ReaderError;
 
+const MAX_CAPACITY: usize = 1024 * 1024;
+
 pub fn read_zip(
     archive: &mut zip::read::ZipArchive<Cursor<&[u8]>>,
     name: &str,
@@ -15,9 +17,11 @@ pub fn read_zip(
         name.trim_start_matches('/')
     };
     let mut xml = archive.by_name(path)?;
-    let capacity = usize::try_from(xml.size()).unwrap_or(0);
+    // The size is what the archive claims, it may be anything.
+    let capacity = usize::try_from(xml.size()).unwrap_or(0).min(MAX_CAPACITY);
     let mut data = Vec::with_capacity(capacity);
-    xml.read_to_end(&mut data).unwrap();
+    xml.read_to_end(&mut data)
+        .map_err(zip::result::ZipError::from)?;
     // Remove BOM
     if data.starts_with(&[0xef, 0xbb, 0xbf]) {
         data.copy_within(3.., 0);
-- 
2.43.0


From e78302a2c2942b0efc8278a9ccc5286e4af4fc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:59:17 +0000
Subject: [PATCH 60/75] fix: do not take elements and attributes of other
 vocabularies for the ones read

---
 docx-core/src/reader/xml_parser.rs | 132 +++++++++++++++++++++++++----
 1 file changed, 116 insertions(+), 16 deletions(-)

diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index 7ff93ff..e65b6de 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -61,11 +61,101 @@ pub enum XmlEvent {
 /// or more for every level, so that input nested without bound would exhaust the stack.
 const MAX_DEPTH: usize = 256;
 
+/// The namespaces whose elements and attributes the readers tell apart by their local names.
+const READ_NAMESPACES: [&str; 21] = [
+    "http://schemas.openxmlformats.org/wordprocessingml/2006/main",
+    "http://schemas.openxmlformats.org/drawingml/2006/main",
+    "http://schemas.openxmlformats.org/drawingml/2006/picture",
+    "http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing",
+    "http://schemas.openxmlformats.org/markup-compatibility/2006",
+    "http://schemas.openxmlformats.org/officeDocument/2006/custom-properties",
+    "http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes",
+    "http://schemas.openxmlformats.org/officeDocument/2006/relationships",
+    "http://schemas.openxmlformats.org/package/2006/content-types",
+    "http://schemas.openxmlformats.org/package/2006/relationships",
+    "http://purl.oclc.org/ooxml/wordprocessingml/main",
+    "http://purl.oclc.org/ooxml/drawingml/main",
+    "http://purl.oclc.org/ooxml/drawingml/picture",
+    "http://purl.oclc.org/ooxml/drawingml/wordprocessingDrawing",
+    "http://purl.oclc.org/ooxml/officeDocument/customProperties",
+    "http://purl.oclc.org/ooxml/officeDocument/docPropsVTypes",
+    "http://purl.oclc.org/ooxml/officeDocument/relationships",
+    "http://schemas.microsoft.com/office/word/2010/wordml",
+    "http://schemas.microsoft.com/office/word/2012/wordml",
+    "http://schemas.microsoft.com/office/word/2010/wordprocessingShape",
+    "urn:schemas-microsoft-com:vml",
+];
+
+/// The prefixes these namespaces usually have. They are trusted whatever they are bound to.
+const READ_PREFIXES: [&str; 11] = [
+    "w", "w14", "w15", "wp", "wps", "a", "pic", "r", "mc", "v", "vt",
+];
+
+/// Tells which prefixes of the open elements stand for vocabularies that are not read.
+#[derive(Default)]
+struct NamespaceScope {
+    /// Declared prefixes, innermost last, and whether their namespace is read
+    prefixes: Vec<(Vec<u8>, bool)>,
+    /// Number of prefixes declared outside of each open element
+    open: Vec<usize>,
+}
+
+impl NamespaceScope {
+    fn depth(&self) -> usize {
+        self.open.len()
+    }
+
+    fn open(&mut self, element: &BytesStart<'_>, decoder: Decoder) -> Result<(), quick_xml::Error> {
+        self.open.push(self.prefixes.len());
+        for attr in element.attributes().with_checks(false) {
+            let attr = attr.map_err(quick_xml::Error::from)?;
+            if let Some(prefix) = attr.key.as_ref().strip_prefix(b"xmlns:") {
+                let uri = attr.decoded_and_normalized_value(XmlVersion::Implicit1_0, decoder)?;
+                let is_read = READ_NAMESPACES.contains(&uri.as_ref())
+                    || READ_PREFIXES.iter().any(|p| p.as_bytes() == prefix);
+                self.prefixes.push((prefix.to_vec(), is_read));
+            }
+        }
+        Ok(())
+    }
+
+    fn close(&mut self) {
+        if let Some(len) = self.open.pop() {
+            self.prefixes.truncate(len);
+        }
+    }
+
+    /// Split a qualified name. Names of other vocabularies are kept whole, so that
+    /// they are not mistaken for names with the same local part.
+    fn name(&self, raw: &[u8]) -> OwnedName {
+        let Some(idx) = raw.iter().position(|byte| *byte == b':') else {
+            return split_qname(raw);
+        };
+        let prefix = &raw[..idx];
+        let is_read = prefix != b"xml"
+            && prefix != b"xmlns"
+            && self
+                .prefixes
+                .iter()
+                .rev()
+                .find(|(declared, _)| declared == prefix)
+                .map_or(true, |(_, is_read)| *is_read);
+        if is_read {
+            return split_qname(raw);
+        }
+        OwnedName {
+            local_name: String::from_utf8_lossy(raw).into_owned(),
+            namespace: None,
+            prefix: None,
+        }
+    }
+}
+
 pub struct EventReader<R: Read> {
     reader: Reader<BufReader<R>>,
     buf: Vec<u8>,
     pending: VecDeque<XmlEvent>,
-    depth: usize,
+    namespaces: NamespaceScope,
     finished: bool,
     error: Option<quick_xml::Error>,
 }
@@ -83,7 +173,7 @@ impl<R: Read> EventReader<R> {
             reader,
             buf: Vec::new(),
             pending: VecDeque::new(),
-            depth: 0,
+            namespaces: NamespaceScope::default(),
             finished: false,
             error: None,
         }
@@ -115,18 +205,20 @@ impl<R: Read> EventReader<R> {
             self.buf.clear();
             match self.reader.read_event_into(&mut self.buf)? {
                 Event::Start(element) => {
-                    if self.depth == MAX_DEPTH {
+                    if self.namespaces.depth() == MAX_DEPTH {
                         return Err(too_deep());
                     }
-                    self.depth += 1;
                     let decoder = self.reader.decoder();
-                    let event = Self::build_start_event(element, decoder)?;
+                    self.namespaces.open(&element, decoder)?;
+                    let event = Self::build_start_event(element, decoder, &self.namespaces)?;
                     self.pending.push_back(event);
                     break;
                 }
                 Event::Empty(element) => {
                     let decoder = self.reader.decoder();
-                    let event = Self::build_start_event(element, decoder)?;
+                    self.namespaces.open(&element, decoder)?;
+                    let event = Self::build_start_event(element, decoder, &self.namespaces)?;
+                    self.namespaces.close();
                     let end_event = if let XmlEvent::StartElement { name, .. } = &event {
                         Some(XmlEvent::EndElement { name: name.clone() })
                     } else {
@@ -139,8 +231,8 @@ impl<R: Read> EventReader<R> {
                     break;
                 }
                 Event::End(element) => {
-                    let name = build_name_from_end(&element)?;
-                    self.depth = self.depth.saturating_sub(1);
+                    let name = build_name_from_end(&element, &self.namespaces)?;
+                    self.namespaces.close();
                     self.pending.push_back(XmlEvent::EndElement { name });
                     break;
                 }
@@ -154,7 +246,7 @@ impl<R: Read> EventReader<R> {
                     text.push_str(&self.reader.decoder().decode(cdata.as_ref())?);
                 }
                 Event::Eof => {
-                    if self.depth > 0 {
+                    if self.namespaces.depth() > 0 {
                         return Err(unexpected_end());
                     }
                     self.pending.push_back(XmlEvent::EndDocument);
@@ -183,9 +275,10 @@ impl<R: Read> EventReader<R> {
     fn build_start_event(
         element: BytesStart<'_>,
         decoder: Decoder,
+        namespaces: &NamespaceScope,
     ) -> Result<XmlEvent, quick_xml::Error> {
-        let name = build_name_from_start(&element)?;
-        let attributes = build_attributes(&element, decoder)?;
+        let name = build_name_from_start(&element, namespaces)?;
+        let attributes = build_attributes(&element, decoder, namespaces)?;
         Ok(XmlEvent::StartElement {
             name,
             attributes,
@@ -227,14 +320,20 @@ fn too_deep() -> quick_xml::Error {
     .into()
 }
 
-fn build_name_from_start(element: &BytesStart<'_>) -> Result<OwnedName, quick_xml::Error> {
+fn build_name_from_start(
+    element: &BytesStart<'_>,
+    namespaces: &NamespaceScope,
+) -> Result<OwnedName, quick_xml::Error> {
     let name = element.name();
-    Ok(split_qname(name.as_ref()))
+    Ok(namespaces.name(name.as_ref()))
 }
 
-fn build_name_from_end(element: &BytesEnd<'_>) -> Result<OwnedName, quick_xml::Error> {
+fn build_name_from_end(
+    element: &BytesEnd<'_>,
+    namespaces: &NamespaceScope,
+) -> Result<OwnedName, quick_xml::Error> {
     let name = element.name();
-    Ok(split_qname(name.as_ref()))
+    Ok(namespaces.name(name.as_ref()))
 }
 
 fn decode_text(text: BytesText<'_>) -> Result<String, quick_xml::Error> {
@@ -279,6 +378,7 @@ fn split_qname(raw: &[u8]) -> OwnedName {
 fn build_attributes(
     element: &BytesStart<'_>,
     decoder: Decoder,
+    namespaces: &NamespaceScope,
 ) -> Result<Vec<OwnedAttribute>, quick_xml::Error> {
     let mut raw_attributes = element.attributes();
     let iter = raw_attributes.with_checks(false);
@@ -288,7 +388,7 @@ fn build_attributes(
         let value = attr
             .decoded_and_normalized_value(XmlVersion::Implicit1_0, decoder)?
             .into_owned();
-        let name = split_qname(attr.key.as_ref());
+        let name = namespaces.name(attr.key.as_ref());
         attributes.push(OwnedAttribute { name, value });
     }
     Ok(attributes)
-- 
2.43.0


From 8af9b8db16ed4369dce92542e12f7ef152235ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:00:28 +0000
Subject: [PATCH 61/75] fix: follow relationships to parts anywhere in the
 package

---
 docx-core/src/reader/read_zip.rs | 27 ++++++++++++++++++---------
 docx-core/src/reader/rels.rs     | 13 ++++++-------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/docx-core/src/reader/read_zip.rs b/docx-core/src/reader/read_zip.rs
index 447d90b..6443970 100644
--- a/docx-core/src/reader/read_zip.rs
+++ b/docx-core/src/reader/read_zip.rs
@@ -4,19 +4,28 @@ use super::ReaderError;
 
 const MAX_CAPACITY: usize = 1024 * 1024;
 
+/// The name of the part that a path, relative to the root of the package, leads to.
+pub(crate) fn part_name(path: &str) -> String {
+    // Archives zipped on Windows keep '\' in paths, replace them to avoid zip error.
+    let path = path.replace('\\', "/");
+    let mut names: Vec<&str> = vec![];
+    for name in path.split('/') {
+        match name {
+            "" | "." => {}
+            ".." => {
+                names.pop();
+            }
+            _ => names.push(name),
+        }
+    }
+    names.join("/")
+}
+
 pub fn read_zip(
     archive: &mut zip::read::ZipArchive<Cursor<&[u8]>>,
     name: &str,
 ) -> Result<Vec<u8>, ReaderError> {
-    // Archives zipped on Windows keep '\' in paths, replace them to avoid zip error.
-    let normalized;
-    let path = if name.contains('\\') {
-        normalized = name.replace('\\', "/");
-        normalized.trim_start_matches('/')
-    } else {
-        name.trim_start_matches('/')
-    };
-    let mut xml = archive.by_name(path)?;
+    let mut xml = archive.by_name(&part_name(name))?;
     // The size is what the archive claims, it may be anything.
     let capacity = usize::try_from(xml.size()).unwrap_or(0).min(MAX_CAPACITY);
     let mut data = Vec::with_capacity(capacity);
diff --git a/docx-core/src/reader/rels.rs b/docx-core/src/reader/rels.rs
index 630d839..1658bd2 100644
--- a/docx-core/src/reader/rels.rs
+++ b/docx-core/src/reader/rels.rs
@@ -51,13 +51,12 @@ pub fn find_rels_filename(main_path: impl AsRef<Path>) -> Result<PathBuf, Reader
     let dir = path
         .parent()
         .ok_or(ReaderError::DocumentRelsNotFoundError)?;
-    let base = path
-        .file_stem()
-        .ok_or(ReaderError::DocumentRelsNotFoundError)?;
-    Ok(Path::new(dir)
-        .join("_rels")
-        .join(base)
-        .with_extension("xml.rels"))
+    let mut base = path
+        .file_name()
+        .ok_or(ReaderError::DocumentRelsNotFoundError)?
+        .to_owned();
+    base.push(".rels");
+    Ok(Path::new(dir).join("_rels").join(base))
 }
 
 pub fn read_rels_xml<R: Read>(reader: R, dir: impl AsRef<Path>) -> Result<ReadRels, ReaderError> {
-- 
2.43.0


From 6b616bf9f941a8b30b5e1060ec000d47be449acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:04:38 +0000
Subject: [PATCH 62/75] fix: read flat XML packages with the same rules as
 zipped ones

---
 docx-core/src/documents/mod.rs                |   2 +-
 docx-core/src/reader/document_rels.rs         |  15 +-
 docx-core/src/reader/header_or_footer_rels.rs |   5 +-
 docx-core/src/reader/read_docx.rs             | 106 +--
 docx-core/src/reader/read_xml.rs              | 614 ++----------------
 5 files changed, 146 insertions(+), 596 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 47ed88d..c09eba1 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -315,7 +315,7 @@ impl Docx {
         self
     }
 
-    // reader only
+    #[cfg(test)]
     pub(crate) fn add_image(
         self,
         id: impl Into<String>,
diff --git a/docx-core/src/reader/document_rels.rs b/docx-core/src/reader/document_rels.rs
index 1e847db..c7a119b 100644
--- a/docx-core/src/reader/document_rels.rs
+++ b/docx-core/src/reader/document_rels.rs
@@ -34,6 +34,13 @@ impl ReadDocumentRels {
 pub fn read_document_rels(
     archive: &mut zip::read::ZipArchive<Cursor<&[u8]>>,
     main_path: impl AsRef<Path>,
+) -> Result<ReadDocumentRels, ReaderError> {
+    read_part_rels(archive, main_path)
+}
+
+pub(crate) fn read_part_rels(
+    parts: &mut impl PackageParts,
+    main_path: impl AsRef<Path>,
 ) -> Result<ReadDocumentRels, ReaderError> {
     let dir = &main_path
         .as_ref()
@@ -41,7 +48,11 @@ pub fn read_document_rels(
         .ok_or(ReaderError::DocumentRelsNotFoundError)?;
     let p = find_rels_filename(&main_path)?;
     let p = p.to_str().ok_or(ReaderError::DocumentRelsNotFoundError)?;
-    let data = read_zip(archive, p)?;
-    let rels = read_rels_xml(&data[..], dir)?;
+    let rels = match parts.read_part(p) {
+        Ok(data) => read_rels_xml(&data[..], dir)?,
+        // A document that refers to nothing needs no relationships.
+        Err(ReaderError::ZipError(zip::result::ZipError::FileNotFound)) => BTreeMap::new(),
+        Err(e) => return Err(e),
+    };
     Ok(ReadDocumentRels { rels })
 }
diff --git a/docx-core/src/reader/header_or_footer_rels.rs b/docx-core/src/reader/header_or_footer_rels.rs
index 1c2dc31..a5b69a7 100644
--- a/docx-core/src/reader/header_or_footer_rels.rs
+++ b/docx-core/src/reader/header_or_footer_rels.rs
@@ -1,6 +1,5 @@
 use std::collections::BTreeMap;
 use std::collections::BTreeSet;
-use std::io::Cursor;
 use std::path::*;
 
 use header_or_footer_rels::rels::find_rels_filename;
@@ -34,7 +33,7 @@ impl ReadHeaderOrFooterRels {
 }
 
 pub fn read_header_or_footer_rels(
-    archive: &mut zip::read::ZipArchive<Cursor<&[u8]>>,
+    parts: &mut impl PackageParts,
     header_or_footer_path: impl AsRef<Path>,
 ) -> Result<ReadHeaderOrFooterRels, ReaderError> {
     let dir = &header_or_footer_path
@@ -45,7 +44,7 @@ pub fn read_header_or_footer_rels(
     let p = p
         .to_str()
         .ok_or(ReaderError::HeaderOrFooterRelsNotFoundError)?;
-    let data = read_zip(archive, p)?;
+    let data = parts.read_part(p)?;
     let rels = read_rels_xml(&data[..], dir)?;
     Ok(ReadHeaderOrFooterRels { rels })
 }
diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index 24ef048..fad945b 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -4,19 +4,35 @@ use super::*;
 
 use zip::ZipArchive;
 
+/// The container that the parts of a package are stored in.
+pub(crate) trait PackageParts {
+    fn read_part(&mut self, name: &str) -> Result<Vec<u8>, ReaderError>;
+
+    /// The part that holds the numberings if no relationship leads to them.
+    fn unrelated_numberings(&self) -> Option<&'static str> {
+        None
+    }
+}
+
+impl PackageParts for ZipArchive<Cursor<&[u8]>> {
+    fn read_part(&mut self, name: &str) -> Result<Vec<u8>, ReaderError> {
+        read_zip(self, name)
+    }
+}
+
 fn read_headers(
     rels: &ReadDocumentRels,
-    archive: &mut ZipArchive<Cursor<&[u8]>>,
+    parts: &mut impl PackageParts,
 ) -> HashMap<RId, (Header, ReadHeaderOrFooterRels)> {
     let header_paths = rels.target_paths(HEADER_TYPE);
     let headers: HashMap<RId, (Header, ReadHeaderOrFooterRels)> = header_paths
         .into_iter()
         .flatten()
         .filter_map(|(rid, path, ..)| {
-            let data = read_zip(archive, path.to_str().expect("should have header path."));
+            let data = parts.read_part(path.to_str().expect("should have header path."));
             if let Ok(d) = data {
                 if let Ok(h) = Header::from_xml(&d[..]) {
-                    let rels = read_header_or_footer_rels(archive, path).unwrap_or_default();
+                    let rels = read_header_or_footer_rels(parts, path).unwrap_or_default();
                     return Some((rid.clone(), (h, rels)));
                 }
             }
@@ -28,17 +44,17 @@ fn read_headers(
 
 fn read_footers(
     rels: &ReadDocumentRels,
-    archive: &mut ZipArchive<Cursor<&[u8]>>,
+    parts: &mut impl PackageParts,
 ) -> HashMap<RId, (Footer, ReadHeaderOrFooterRels)> {
     let footer_paths = rels.target_paths(FOOTER_TYPE);
     let footers: HashMap<RId, (Footer, ReadHeaderOrFooterRels)> = footer_paths
         .into_iter()
         .flatten()
         .filter_map(|(rid, path, ..)| {
-            let data = read_zip(archive, path.to_str().expect("should have footer path."));
+            let data = parts.read_part(path.to_str().expect("should have footer path."));
             if let Ok(d) = data {
                 if let Ok(h) = Footer::from_xml(&d[..]) {
-                    let rels = read_header_or_footer_rels(archive, path).unwrap_or_default();
+                    let rels = read_header_or_footer_rels(parts, path).unwrap_or_default();
                     return Some((rid.clone(), (h, rels)));
                 }
             }
@@ -48,13 +64,13 @@ fn read_footers(
     footers
 }
 
-fn read_themes(rels: &ReadDocumentRels, archive: &mut ZipArchive<Cursor<&[u8]>>) -> Vec<Theme> {
+fn read_themes(rels: &ReadDocumentRels, parts: &mut impl PackageParts) -> Vec<Theme> {
     let theme_paths = rels.target_paths(THEME_TYPE);
     theme_paths
         .into_iter()
         .flatten()
         .filter_map(|(_rid, path, ..)| {
-            let data = read_zip(archive, path.to_str().expect("should have footer path."));
+            let data = parts.read_part(path.to_str().expect("should have footer path."));
             if let Ok(d) = data {
                 if let Ok(h) = Theme::from_xml(&d[..]) {
                     return Some(h);
@@ -97,7 +113,6 @@ pub fn read_docx(buf: &[u8]) -> Result<Docx, ReaderError> {
 }
 
 pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Docx, ReaderError> {
-    let mut docx = Docx::new();
     let cur = Cursor::new(buf);
     let mut archive = zip::ZipArchive::new(cur)?;
     // First, the content type for relationship parts and the Main Document part
@@ -107,10 +122,19 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
         ContentTypes::from_xml(&data[..])?
     };
 
+    read_package(&mut archive, options)
+}
+
+/// Read the parts of a package, whatever it is stored in.
+pub(crate) fn read_package(
+    parts: &mut impl PackageParts,
+    options: ReadDocxOptions,
+) -> Result<Docx, ReaderError> {
+    let mut docx = Docx::new();
     // Next, the single required relationship (the package-level relationship to the Main Document part)
     //  must be defined (physically located at /_rels/.rels in the package)
     let rels = {
-        let data = read_zip(&mut archive, "_rels/.rels")?;
+        let data = parts.read_part("_rels/.rels")?;
         Rels::from_xml(&data[..])?
     };
 
@@ -127,7 +151,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     };
 
     if let Some(custom_props) = rels.find_target(CUSTOM_PROPERTIES_TYPE) {
-        let data = read_zip(&mut archive, &custom_props.2);
+        let data = parts.read_part(&custom_props.2);
         if let Ok(data) = data {
             if let Ok(custom) = CustomProps::from_xml(&data[..]) {
                 docx.doc_props.custom = custom;
@@ -135,19 +159,18 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
         }
     }
 
-    let rels = read_document_rels(&mut archive, &document_path)?;
+    let rels = read_part_rels(parts, &document_path)?;
 
-    let headers = read_headers(&rels, &mut archive);
-    let footers = read_footers(&rels, &mut archive);
+    let headers = read_headers(&rels, parts);
+    let footers = read_footers(&rels, parts);
 
-    docx.themes = read_themes(&rels, &mut archive);
+    docx.themes = read_themes(&rels, parts);
 
     // Read commentsExtended
     let comments_extended_path = rels.target_paths(COMMENTS_EXTENDED_TYPE);
     let comments_extended = if let Some(comments_extended_path) = comments_extended_path {
         if let Some((_, comments_extended_path, ..)) = comments_extended_path.first() {
-            let data = read_zip(
-                &mut archive,
+            let data = parts.read_part(
                 comments_extended_path
                     .to_str()
                     .expect("should have comments extended."),
@@ -168,10 +191,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     let comments_path = rels.target_paths(COMMENTS_TYPE);
     let comments = if let Some(paths) = comments_path {
         if let Some((_, comments_path, ..)) = paths.first() {
-            let data = read_zip(
-                &mut archive,
-                comments_path.to_str().expect("should have comments."),
-            );
+            let data = parts.read_part(comments_path.to_str().expect("should have comments."));
             if let Ok(data) = data {
                 let mut comments = Comments::from_xml(&data[..])?.into_inner();
                 if !comments.is_empty() && !comments_extended.children.is_empty() {
@@ -224,7 +244,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     };
 
     let document = {
-        let data = read_zip(&mut archive, &document_path)?;
+        let data = parts.read_part(&document_path)?;
         Document::from_xml(&data[..])?
     };
     docx = docx.document(document);
@@ -238,7 +258,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
             docx.content_type = docx.content_type.add_header();
             // Read media
             let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+            docx = add_images(docx, media, parts, options.generate_image_previews);
         }
     }
     if let Some(ref h) = docx
@@ -256,7 +276,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
             docx.content_type = docx.content_type.add_header();
             // Read media
             let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+            docx = add_images(docx, media, parts, options.generate_image_previews);
         }
     }
     if let Some(ref h) = docx.document.section_property.even_header_reference.clone() {
@@ -268,7 +288,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
 
             // Read media
             let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+            docx = add_images(docx, media, parts, options.generate_image_previews);
         }
     }
 
@@ -282,7 +302,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
 
             // Read media
             let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+            docx = add_images(docx, media, parts, options.generate_image_previews);
         }
     }
 
@@ -302,7 +322,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
 
             // Read media
             let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+            docx = add_images(docx, media, parts, options.generate_image_previews);
         }
     }
     if let Some(ref f) = docx.document.section_property.even_footer_reference.clone() {
@@ -314,7 +334,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
 
             // Read media
             let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+            docx = add_images(docx, media, parts, options.generate_image_previews);
         }
     }
 
@@ -330,10 +350,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     let style_path = rels.target_paths(STYLE_RELATIONSHIP_TYPE);
     if let Some(paths) = style_path {
         if let Some((_, style_path, ..)) = paths.first() {
-            let data = read_zip(
-                &mut archive,
-                style_path.to_str().expect("should have styles"),
-            )?;
+            let data = parts.read_part(style_path.to_str().expect("should have styles"))?;
             let styles = Styles::from_xml(&data[..])?;
             docx = docx.styles(styles);
         }
@@ -343,23 +360,23 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     let num_path = rels.target_paths(NUMBERING_RELATIONSHIP_TYPE);
     if let Some(paths) = num_path {
         if let Some((_, num_path, ..)) = paths.first() {
-            let data = read_zip(
-                &mut archive,
-                num_path.to_str().expect("should have numberings"),
-            )?;
+            let data = parts.read_part(num_path.to_str().expect("should have numberings"))?;
             let nums = Numberings::from_xml(&data[..])?;
             docx = docx.numberings(nums);
         }
+    } else if let Some(num_path) = parts.unrelated_numberings() {
+        if let Ok(data) = parts.read_part(num_path) {
+            if let Ok(nums) = Numberings::from_xml(&data[..]) {
+                docx = docx.numberings(nums);
+            }
+        }
     }
 
     // Read settings
     let settings_path = rels.target_paths(SETTINGS_TYPE);
     if let Some(paths) = settings_path {
         if let Some((_, settings_path, ..)) = paths.first() {
-            let data = read_zip(
-                &mut archive,
-                settings_path.to_str().expect("should have settings"),
-            )?;
+            let data = parts.read_part(settings_path.to_str().expect("should have settings"))?;
             let settings = Settings::from_xml(&data[..])?;
             docx = docx.settings(settings);
         }
@@ -369,8 +386,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     let web_settings_path = rels.target_paths(WEB_SETTINGS_TYPE);
     if let Some(paths) = web_settings_path {
         if let Some((_, web_settings_path, ..)) = paths.first() {
-            let data = read_zip(
-                &mut archive,
+            let data = parts.read_part(
                 web_settings_path
                     .to_str()
                     .expect("should have web settings"),
@@ -381,7 +397,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     }
     // Read media
     let media = rels.target_paths(IMAGE_TYPE);
-    docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+    docx = add_images(docx, media, parts, options.generate_image_previews);
 
     // Read hyperlinks
     let links = rels.target_paths(HYPERLINK_TYPE);
@@ -403,13 +419,13 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
 fn add_images(
     mut docx: Docx,
     media: Option<&std::collections::BTreeSet<(RId, PathBuf, Option<String>)>>,
-    archive: &mut ZipArchive<Cursor<&[u8]>>,
+    parts: &mut impl PackageParts,
     generate_previews: bool,
 ) -> Docx {
     // Read media
     if let Some(paths) = media {
         for (id, media, ..) in paths {
-            if let Ok(data) = read_zip(archive, media.to_str().expect("should have media")) {
+            if let Ok(data) = parts.read_part(media.to_str().expect("should have media")) {
                 docx = docx.add_image_with_options(
                     id.clone(),
                     media.to_str().unwrap().to_string(),
diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 8bb9871..af3c87c 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -1,190 +1,5 @@
-use super::header_or_footer_rels::ReadHeaderOrFooterRels;
-use super::namespace::*;
 use super::*;
 
-fn read_headers_from_xml(
-    rels: &Rels,
-    part_map: &HashMap<String, String>,
-    document_path: &str,
-) -> HashMap<RId, (Header, ReadHeaderOrFooterRels)> {
-    let mut headers = HashMap::new();
-
-    // Find all header relationships by looking for header types in rels
-    for (rel_type, id, target) in &rels.rels {
-        if rel_type == HEADER_TYPE {
-            let header_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-
-            if let Some(header_data) = part_map.get(&header_path) {
-                if let Ok(header) = Header::from_xml(header_data.as_bytes()) {
-                    // For simplicity, use default ReadHeaderOrFooterRels
-                    // In a full implementation, we would read the header's _rels file
-                    let header_rels = ReadHeaderOrFooterRels::default();
-                    headers.insert(id.clone(), (header, header_rels));
-                }
-            }
-        }
-    }
-
-    headers
-}
-
-fn read_footers_from_xml(
-    rels: &Rels,
-    part_map: &HashMap<String, String>,
-    document_path: &str,
-) -> HashMap<RId, (Footer, ReadHeaderOrFooterRels)> {
-    let mut footers = HashMap::new();
-
-    // Find all footer relationships by looking for footer types in rels
-    for (rel_type, id, target) in &rels.rels {
-        if rel_type == FOOTER_TYPE {
-            let footer_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-
-            if let Some(footer_data) = part_map.get(&footer_path) {
-                if let Ok(footer) = Footer::from_xml(footer_data.as_bytes()) {
-                    // For simplicity, use default ReadHeaderOrFooterRels
-                    // In a full implementation, we would read the footer's _rels file
-                    let footer_rels = ReadHeaderOrFooterRels::default();
-                    footers.insert(id.clone(), (footer, footer_rels));
-                }
-            }
-        }
-    }
-
-    footers
-}
-
-fn read_comments_from_xml(
-    rels: &Rels,
-    part_map: &HashMap<String, String>,
-    document_path: &str,
-) -> (Comments, CommentsExtended) {
-    // Simplified implementation for XML packages - try to read comments if available
-    let comments_extended = if let Some((_, _, target)) = rels.find_target(COMMENTS_EXTENDED_TYPE) {
-        let ext_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-        if let Some(comments_ext_data) = part_map.get(&ext_path) {
-            CommentsExtended::from_xml(comments_ext_data.as_bytes()).unwrap_or_default()
-        } else {
-            CommentsExtended::default()
-        }
-    } else {
-        CommentsExtended::default()
-    };
-
-    // Read comments
-    let comments = if let Some((_, _, target)) = rels.find_target(COMMENTS_TYPE) {
-        let comm_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-        if let Some(comments_data) = part_map.get(&comm_path) {
-            if let Ok(comments) = Comments::from_xml(comments_data.as_bytes()) {
-                // Process extended comments relationships
-                let mut comments_inner = comments.into_inner();
-                for i in 0..comments_inner.len() {
-                    let c = &comments_inner[i];
-                    let extended = comments_extended.children.iter().find(|ex| {
-                        for child in &c.children {
-                            if let CommentChild::Paragraph(p) = child {
-                                if ex.paragraph_id == p.id {
-                                    return true;
-                                }
-                            }
-                        }
-                        false
-                    });
-                    if let Some(CommentExtended {
-                        parent_paragraph_id: Some(parent_paragraph_id),
-                        ..
-                    }) = extended
-                    {
-                        if let Some(parent_comment) = comments_inner.iter().find(|c| {
-                            for child in &c.children {
-                                if let CommentChild::Paragraph(p) = child {
-                                    if &p.id == parent_paragraph_id {
-                                        return true;
-                                    }
-                                }
-                            }
-                            false
-                        }) {
-                            comments_inner[i].parent_comment_id = Some(parent_comment.id);
-                        }
-                    }
-                }
-                Comments {
-                    comments: comments_inner,
-                }
-            } else {
-                Comments::default()
-            }
-        } else {
-            Comments::default()
-        }
-    } else {
-        Comments::default()
-    };
-
-    (comments, comments_extended)
-}
-
-fn add_images_from_xml(
-    mut docx: Docx,
-    media: Option<Vec<(RId, PathBuf, Option<String>)>>,
-    part_map: &HashMap<String, String>,
-    document_path: &str,
-) -> Docx {
-    // Read media from XML package
-    if let Some(paths) = media {
-        for (id, media_path, ..) in paths {
-            let base_path = document_path
-                .replace("document.xml", "")
-                .trim_end_matches('/')
-                .to_string();
-            let image_path = format!("{}/{}", base_path, media_path.to_str().unwrap_or(""));
-
-            // Try multiple possible paths for the image
-            let paths_to_try = vec![
-                image_path.clone(),
-                format!("/{}", image_path.trim_start_matches('/')),
-                image_path.trim_start_matches('/').to_string(),
-            ];
-
-            for path in paths_to_try {
-                if let Some(image_data) = part_map.get(&path) {
-                    // For XML packages with binaryData, the data is base64 encoded
-                    // Remove all whitespace and newlines from base64 data
-                    let clean_base64 = image_data
-                        .chars()
-                        .filter(|c| !c.is_whitespace())
-                        .collect::<String>();
-                    let bytes = if let Ok(decoded) =
-                        base64::engine::general_purpose::STANDARD.decode(&clean_base64)
-                    {
-                        decoded
-                    } else {
-                        // If base64 decode fails, try as raw bytes (shouldn't happen for binaryData)
-                        image_data.as_bytes().to_vec()
-                    };
-                    docx =
-                        docx.add_image(id.clone(), media_path.to_str().unwrap().to_string(), bytes);
-                    break;
-                }
-            }
-        }
-    }
-    docx
-}
-
-fn add_header_footer_images(
-    docx: Docx,
-    _header_footer_rels: &ReadHeaderOrFooterRels,
-    _part_map: &HashMap<String, String>,
-    _document_path: &str,
-) -> Docx {
-    // For XML packages, header/footer image handling is simplified
-    // In a full implementation, we would process header/footer relationships for images
-    // For now, we'll use the default ReadHeaderOrFooterRels which doesn't have images
-    docx
-}
-
 /// A struct to hold information about a part in an XML package
 #[derive(Debug, Clone)]
 pub struct XmlPackagePart {
@@ -211,6 +26,29 @@ fn decode_html_entities(text: &str) -> String {
         .replace("&#62;", ">")
 }
 
+/// Find the value of an attribute of a part.
+fn part_attribute(part_xml: &str, name: &str) -> Option<String> {
+    let tag = &part_xml[..part_xml.find('>')?];
+    let value = tag[tag.find(name)? + name.len()..]
+        .trim_start()
+        .strip_prefix('=')?
+        .trim_start();
+    if let Some(value) = value.strip_prefix("\"\"") {
+        // Handle double-quoted pattern: pkg:name=""value""
+        return Some(decode_html_entities(&value[..value.find("\"\"")?]));
+    }
+    let quote = value.chars().next().filter(|c| matches!(c, '"' | '\''))?;
+    let value = &value[1..];
+    let value = &value[..value.find(quote)?];
+    Some(quick_xml::escape::unescape(value).ok()?.into_owned())
+}
+
+/// Find where the content of an element of a part begins.
+fn find_content(part_xml: &str, tag: &str) -> Option<usize> {
+    let start = part_xml.find(tag)?;
+    Some(start + part_xml[start..].find('>')? + 1)
+}
+
 /// Extract parts from a Microsoft Word XML package using simple string parsing
 pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart>, ReaderError> {
     let mut parts = Vec::new();
@@ -225,63 +63,17 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
             let part_end = part_start + part_end + 11; // 11 = "</pkg:part>".len()
             let part_xml = &xml_content[part_start..part_end];
 
-            // Extract name attribute (handle both standard and double-quoted patterns)
-            let name = if let Some(name_start) = part_xml.find("pkg:name=\"\"") {
-                // Handle double-quoted pattern: pkg:name=""value""
-                let name_start = name_start + 12; // 12 = "pkg:name=\"\"".len()
-                if let Some(name_end) = part_xml[name_start..].find("\"\"") {
-                    decode_html_entities(&part_xml[name_start..name_start + name_end])
-                } else {
-                    // Skip this part but continue processing
-                    start_idx = part_end;
-                    continue;
-                }
-            } else if let Some(name_start) = part_xml.find("pkg:name=\"") {
-                // Handle standard pattern: pkg:name="value"
-                let name_start = name_start + 10; // 10 = "pkg:name=\"".len()
-                if let Some(name_end) = part_xml[name_start..].find("\"") {
-                    part_xml[name_start..name_start + name_end].to_string()
-                } else {
-                    // Skip this part but continue processing
-                    start_idx = part_end;
-                    continue;
-                }
-            } else {
-                // Skip this part but continue processing
-                start_idx = part_end;
-                continue;
-            };
-
-            // Extract contentType attribute (handle both standard and double-quoted patterns)
-            let content_type = if let Some(type_start) = part_xml.find("pkg:contentType=\"\"") {
-                // Handle double-quoted pattern: pkg:contentType=""value""
-                let type_start = type_start + 19; // 19 = "pkg:contentType=\"\"".len()
-                if let Some(type_end) = part_xml[type_start..].find("\"\"") {
-                    decode_html_entities(&part_xml[type_start..type_start + type_end])
-                } else {
-                    // Skip this part but continue processing
-                    start_idx = part_end;
-                    continue;
-                }
-            } else if let Some(type_start) = part_xml.find("pkg:contentType=\"") {
-                // Handle standard pattern: pkg:contentType="value"
-                let type_start = type_start + 17; // 17 = "pkg:contentType=\"".len()
-                if let Some(type_end) = part_xml[type_start..].find("\"") {
-                    part_xml[type_start..type_start + type_end].to_string()
-                } else {
-                    // Skip this part but continue processing
-                    start_idx = part_end;
-                    continue;
-                }
-            } else {
+            let (Some(name), Some(content_type)) = (
+                part_attribute(part_xml, "pkg:name"),
+                part_attribute(part_xml, "pkg:contentType"),
+            ) else {
                 // Skip this part but continue processing
                 start_idx = part_end;
                 continue;
             };
 
             // Extract xmlData or binaryData content
-            let data = if let Some(data_start) = part_xml.find("<pkg:xmlData>") {
-                let data_start = data_start + 13; // 13 = "<pkg:xmlData>".len()
+            let data = if let Some(data_start) = find_content(part_xml, "<pkg:xmlData") {
                 if let Some(data_end) = part_xml[data_start..].find("</pkg:xmlData>") {
                     part_xml[data_start..data_start + data_end].to_string()
                 } else {
@@ -289,8 +81,7 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
                     start_idx = part_end;
                     continue;
                 }
-            } else if let Some(data_start) = part_xml.find("<pkg:binaryData>") {
-                let data_start = data_start + 16; // 16 = "<pkg:binaryData>".len()
+            } else if let Some(data_start) = find_content(part_xml, "<pkg:binaryData") {
                 if let Some(data_end) = part_xml[data_start..].find("</pkg:binaryData>") {
                     // Binary data in XML packages is base64 encoded
                     part_xml[data_start..data_start + data_end]
@@ -315,326 +106,59 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
 
             start_idx = part_end;
         } else {
-            // No closing tag found, move to next position to avoid infinite loop
-            start_idx = part_start + 1;
+            // No closing tag found, there are no more parts
+            break;
         }
     }
 
     Ok(parts)
 }
 
-/// Read a Docx from Microsoft Word XML format (single XML file with all parts)
-pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
-    let mut docx = Docx::new();
-
-    // Extract all parts from the XML package
-    let parts = extract_xml_package_parts(xml_content)?;
-
-    // Create a HashMap for easy lookup of parts by name
-    let mut part_map: HashMap<String, String> = HashMap::new();
-    for part in parts {
-        part_map.insert(part.name, part.data);
-    }
-
-    // Read content types (not strictly necessary for XML format, but helps with compatibility)
-    let _content_types = if let Some(content_types_data) = part_map.get("[Content_Types].xml") {
-        ContentTypes::from_xml(content_types_data.as_bytes()).ok()
-    } else {
-        None
-    };
-
-    // Read main relationships (try both with and without leading slash)
-    let rels = if let Some(rels_data) = part_map.get("_rels/.rels") {
-        Rels::from_xml(rels_data.as_bytes())?
-    } else if let Some(rels_data) = part_map.get("/_rels/.rels") {
-        Rels::from_xml(rels_data.as_bytes())?
-    } else {
-        return Err(ReaderError::DocumentNotFoundError);
-    };
-
-    // Find the main document path
-    let main_rel = rels
-        .find_target(DOC_RELATIONSHIP_TYPE)
-        .ok_or(ReaderError::DocumentNotFoundError);
-
-    let document_path = if let Ok(rel) = main_rel {
-        rel.2.clone()
-    } else {
-        "word/document.xml".to_owned()
-    };
-
-    // Read custom properties if available
-    if let Some(custom_props) = rels.find_target(CUSTOM_PROPERTIES_TYPE) {
-        if let Some(data) = part_map.get(&custom_props.2) {
-            if let Ok(custom) = CustomProps::from_xml(data.as_bytes()) {
-                docx.doc_props.custom = custom;
-            }
-        }
-    }
-
-    // Read document relationships - use Rels directly for XML packages
-    let document_rels_path = document_path.replace("document.xml", "_rels/document.xml.rels");
-    let document_rels = if let Some(rels_data) = part_map.get(&document_rels_path) {
-        Rels::from_xml(rels_data.as_bytes())?
-    } else if let Some(rels_data) = part_map.get(&format!("/{document_rels_path}")) {
-        Rels::from_xml(rels_data.as_bytes())?
-    } else {
-        Rels::default()
-    };
-
-    // Read themes (improved implementation with debug)
-    if let Some(theme_rel) = document_rels.find_target(THEME_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let theme_path_str = format!("{}/{}", base_path, theme_rel.2);
-
-        // Also try the direct path from XML package
-        let direct_theme_path = if theme_path_str.starts_with("/") {
-            theme_path_str.clone()
-        } else {
-            format!("/{theme_path_str}")
-        };
-
-        if let Some(theme_data) = part_map
-            .get(&theme_path_str)
-            .or_else(|| part_map.get(&direct_theme_path))
-        {
-            match Theme::from_xml(theme_data.as_bytes()) {
-                Ok(theme) => {
-                    docx.themes.push(theme);
-                }
-                Err(_) => {
-                    // Theme parsing failed - this is a known limitation for some XML formats
-                }
-            }
-        }
-    }
-
-    // Read headers and footers
-    let headers = read_headers_from_xml(&document_rels, &part_map, &document_path);
-    let footers = read_footers_from_xml(&document_rels, &part_map, &document_path);
-
-    // Read comments and comments extended
-    let (comments, comments_extended) =
-        read_comments_from_xml(&document_rels, &part_map, &document_path);
-
-    // Read the main document (try both with and without leading slash)
-    let document = if let Some(doc_data) = part_map.get(&document_path) {
-        Document::from_xml(doc_data.as_bytes())?
-    } else if let Some(doc_data) = part_map.get(&format!("/{document_path}")) {
-        Document::from_xml(doc_data.as_bytes())?
-    } else if let Some(stripped_path) = document_path.strip_prefix("/") {
-        if let Some(doc_data) = part_map.get(stripped_path) {
-            Document::from_xml(doc_data.as_bytes())?
-        } else {
-            return Err(ReaderError::DocumentNotFoundError);
-        }
-    } else {
-        return Err(ReaderError::DocumentNotFoundError);
-    };
-
-    docx = docx.document(document);
-
-    // Read styles if available (improved implementation with debug)
-    if let Some(styles_rel) = document_rels.find_target(STYLE_RELATIONSHIP_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let styles_path_str = format!("{}/{}", base_path, styles_rel.2);
-
-        // Also try the direct path from XML package
-        let direct_styles_path = if styles_path_str.starts_with("/") {
-            styles_path_str.clone()
-        } else {
-            format!("/{styles_path_str}")
-        };
-
-        if let Some(styles_data) = part_map
-            .get(&styles_path_str)
-            .or_else(|| part_map.get(&direct_styles_path))
-        {
-            if let Ok(styles) = Styles::from_xml(styles_data.as_bytes()) {
-                docx.styles = styles;
-            }
-        }
-    }
-
-    // Read numbering if available (improved implementation with debug)
-    if let Some(numbering_rel) = document_rels.find_target(NUMBERING_RELATIONSHIP_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let numbering_path_str = format!("{}/{}", base_path, numbering_rel.2);
-
-        // Also try the direct path from XML package
-        let direct_numbering_path = if numbering_path_str.starts_with("/") {
-            numbering_path_str.clone()
-        } else {
-            format!("/{numbering_path_str}")
-        };
-
-        if let Some(numbering_data) = part_map
-            .get(&numbering_path_str)
-            .or_else(|| part_map.get(&direct_numbering_path))
-        {
-            if let Ok(numberings) = Numberings::from_xml(numbering_data.as_bytes()) {
-                docx.numberings = numberings;
-            }
-        }
-    } else {
-        // Try to find numbering.xml directly in the package if no relationship is found
-        let direct_paths = ["/word/numbering.xml", "word/numbering.xml"];
-        for path in &direct_paths {
-            if let Some(numbering_data) = part_map.get(*path) {
-                if let Ok(numberings) = Numberings::from_xml(numbering_data.as_bytes()) {
-                    docx.numberings = numberings;
-                    break;
-                }
-            }
-        }
-    }
-
-    // Read settings if available (basic implementation)
-    if let Some(settings_rel) = document_rels.find_target(SETTINGS_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let settings_path_str = format!("{}/{}", base_path, settings_rel.2);
-        if let Some(settings_data) = part_map.get(&settings_path_str) {
-            if let Ok(settings) = Settings::from_xml(settings_data.as_bytes()) {
-                docx.settings = settings;
-            }
+/// The parts of a package in a single XML file by name.
+struct XmlPackageParts(HashMap<String, String>);
+
+impl PackageParts for XmlPackageParts {
+    fn read_part(&mut self, name: &str) -> Result<Vec<u8>, ReaderError> {
+        let data = self
+            .0
+            .get(&part_name(name))
+            .ok_or(zip::result::ZipError::FileNotFound)?
+            .trim();
+        if data.starts_with('<') {
+            return Ok(data.as_bytes().to_vec());
         }
+        // For XML packages with binaryData, the data is base64 encoded
+        // Remove all whitespace and newlines from base64 data
+        let base64 = data
+            .chars()
+            .filter(|c| !c.is_whitespace())
+            .collect::<String>();
+        Ok(base64::engine::general_purpose::STANDARD
+            .decode(base64)
+            .unwrap_or_else(|_| data.as_bytes().to_vec()))
     }
 
-    // Read web settings if available (basic implementation)
-    if let Some(web_settings_rel) = document_rels.find_target(WEB_SETTINGS_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let web_settings_path_str = format!("{}/{}", base_path, web_settings_rel.2);
-        if let Some(web_settings_data) = part_map.get(&web_settings_path_str) {
-            if let Ok(web_settings) = WebSettings::from_xml(web_settings_data.as_bytes()) {
-                docx.web_settings = web_settings;
-            }
-        }
-    }
-
-    // Assign headers
-    if let Some(h) = docx.document.section_property.header_reference.clone() {
-        if let Some((header, header_rels)) = headers.get(&h.id) {
-            docx.document = docx.document.header(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-
-            // Read media from header if available
-            docx = add_header_footer_images(docx, header_rels, &part_map, &document_path);
-        }
-    }
-    if let Some(ref h) = docx
-        .document
-        .section_property
-        .first_header_reference
-        .clone()
-    {
-        if let Some((header, header_rels)) = headers.get(&h.id) {
-            docx.document = docx
-                .document
-                .first_header_without_title_pg(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-
-            // Read media from header if available
-            docx = add_header_footer_images(docx, header_rels, &part_map, &document_path);
-        }
+    fn unrelated_numberings(&self) -> Option<&'static str> {
+        Some("word/numbering.xml")
     }
-    if let Some(ref h) = docx.document.section_property.even_header_reference.clone() {
-        if let Some((header, header_rels)) = headers.get(&h.id) {
-            docx.document = docx.document.even_header(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-
-            // Read media from header if available
-            docx = add_header_footer_images(docx, header_rels, &part_map, &document_path);
-        }
-    }
-
-    // Assign footers
-    if let Some(f) = docx.document.section_property.footer_reference.clone() {
-        if let Some((footer, footer_rels)) = footers.get(&f.id) {
-            docx.document = docx.document.footer(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
+}
 
-            // Read media from footer if available
-            docx = add_header_footer_images(docx, footer_rels, &part_map, &document_path);
-        }
-    }
-    if let Some(ref f) = docx
-        .document
-        .section_property
-        .first_footer_reference
-        .clone()
-    {
-        if let Some((footer, footer_rels)) = footers.get(&f.id) {
-            docx.document = docx
-                .document
-                .first_footer_without_title_pg(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media from footer if available
-            docx = add_header_footer_images(docx, footer_rels, &part_map, &document_path);
-        }
-    }
-    if let Some(ref f) = docx.document.section_property.even_footer_reference.clone() {
-        if let Some((footer, footer_rels)) = footers.get(&f.id) {
-            docx.document = docx.document.even_footer(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media from footer if available
-            docx = add_header_footer_images(docx, footer_rels, &part_map, &document_path);
+/// Read a Docx from Microsoft Word XML format (single XML file with all parts)
+pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
+    let mut parts = XmlPackageParts(
+        extract_xml_package_parts(xml_content)?
+            .into_iter()
+            .map(|part| (part_name(&part.name), part.data))
+            .collect(),
+    );
+    let mut docx = read_package(&mut parts, ReadDocxOptions::default())?;
+
+    // Images are named relative to the document.
+    for (_, path, ..) in &mut docx.images {
+        if let Some(relative) = path.strip_prefix("word/") {
+            *path = relative.to_string();
         }
     }
-
-    // Store comments to paragraphs
-    if !comments.inner().is_empty() {
-        docx.store_comments(comments.inner());
-        docx = docx.comments(comments);
-        docx = docx.comments_extended(comments_extended);
-    }
-
-    // Read and add images from XML package
-    let media = document_rels
-        .rels
-        .iter()
-        .filter(|(rel_type, ..)| *rel_type == IMAGE_TYPE)
-        .map(|(_, id, target)| (id.clone(), PathBuf::from(target), None))
-        .collect::<Vec<_>>();
-
-    if !media.is_empty() {
-        docx = add_images_from_xml(docx, Some(media), &part_map, &document_path);
-    }
-
-    // Read and add hyperlinks - simplified for XML packages
-    if let Some((id, _, target)) = document_rels.find_target(HYPERLINK_TYPE) {
-        // For XML packages, we'll add the hyperlink with a default mode
-        docx = docx.add_hyperlink(id, target, "External".to_string());
-    }
-
     Ok(docx)
 }
 
-- 
2.43.0


From 661a37756d8172d13aedf01241f45382049be52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:30:18 +0000
Subject: [PATCH 63/75] fix: read only relationships from the package
 relationships

---
 docx-core/src/reader/rels.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/rels.rs b/docx-core/src/reader/rels.rs
index 1658bd2..3c3e3f7 100644
--- a/docx-core/src/reader/rels.rs
+++ b/docx-core/src/reader/rels.rs
@@ -15,8 +15,11 @@ impl FromXML for Rels {
         let mut depth = 0;
         for e in parser {
             match e {
-                Ok(XmlEvent::StartElement { attributes, .. }) => {
-                    if depth == 1 {
+                Ok(XmlEvent::StartElement {
+                    attributes, name, ..
+                }) => {
+                    let e = XMLElement::from_str(&name.local_name).unwrap();
+                    if depth == 1 && e == XMLElement::Relationship {
                         let mut rel_type = "".to_owned();
                         let mut target = "".to_owned();
                         let mut id = "".to_owned();
-- 
2.43.0


From 3bd47aafa6c1a66d95f914973ff6ebb410219221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:47:40 +0000
Subject: [PATCH 64/75] fix: read less deeply nested elements so that small
 stacks suffice

---
 docx-core/src/reader/xml_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index e65b6de..f7947b5 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -59,7 +59,7 @@ pub enum XmlEvent {
 
 /// The deepest nesting of elements that is read. The readers call each other once
 /// or more for every level, so that input nested without bound would exhaust the stack.
-const MAX_DEPTH: usize = 256;
+const MAX_DEPTH: usize = 128;
 
 /// The namespaces whose elements and attributes the readers tell apart by their local names.
 const READ_NAMESPACES: [&str; 21] = [
-- 
2.43.0


From ee4f768e43548db85d050ad9fe92eb53a9064cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:22:13 +0000
Subject: [PATCH 65/75] fix: keep the size of a picture whose shape has
 extensions

---
 docx-core/src/reader/pic.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/reader/pic.rs b/docx-core/src/reader/pic.rs
index 0cbfba8..042da46 100644
--- a/docx-core/src/reader/pic.rs
+++ b/docx-core/src/reader/pic.rs
@@ -39,7 +39,11 @@ impl ElementReader for Pic {
                                 }
                                 pic = pic.offset_x(offset_x).offset_y(offset_y);
                             }
-                            AXMLElement::Ext => {
+                            // `a:ext` of an extension list has no size.
+                            AXMLElement::Ext
+                                if read(&attributes, "cx").is_some()
+                                    || read(&attributes, "cy").is_some() =>
+                            {
                                 let mut w: u32 = 0;
                                 let mut h: u32 = 0;
                                 if let Some(x) = read(&attributes, "cx") {
-- 
2.43.0


From 1f44c8601ec90f3cedbef99ebf4a95e910ad92ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:10:26 +0000
Subject: [PATCH 66/75] fix: keep the thread of a comment that ends with a
 table when reading

---
 docx-core/src/documents/mod.rs    |  9 +++++++++
 docx-core/src/reader/read_docx.rs | 23 +++++++++--------------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index c09eba1..67eb041 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1280,6 +1280,15 @@ impl DocumentTreeVisitor for CommentFiller {
     }
 }
 
+/// Returns the ids of the paragraphs of a comment, those in its tables too.
+pub(crate) fn para_ids_in_comment(comment: &Comment) -> Vec<&str> {
+    let mut counts = HashMap::new();
+    collect_para_ids_in_comment(comment, &mut counts);
+    let mut ids: Vec<&str> = counts.into_keys().collect();
+    ids.sort_unstable();
+    ids
+}
+
 /// Returns the id of the paragraph that stands for a comment in
 /// `commentsExtended.xml`, which is the last one of the comment.
 fn last_para_id_in_comment(comment: &Comment) -> Option<&str> {
diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index fad945b..4bb649e 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -197,10 +197,8 @@ pub(crate) fn read_package(
                 if !comments.is_empty() && !comments_extended.children.is_empty() {
                     let mut comment_id_by_paragraph: HashMap<String, usize> = HashMap::new();
                     for comment in &comments {
-                        for child in &comment.children {
-                            if let CommentChild::Paragraph(p) = child {
-                                comment_id_by_paragraph.insert(p.id.clone(), comment.id);
-                            }
+                        for id in para_ids_in_comment(comment) {
+                            comment_id_by_paragraph.insert(id.to_string(), comment.id);
                         }
                     }
 
@@ -216,16 +214,13 @@ pub(crate) fn read_package(
 
                     for comment in &mut comments {
                         let mut parent_comment_id = None;
-                        for child in &comment.children {
-                            if let CommentChild::Paragraph(p) = child {
-                                if let Some(parent_paragraph_id) =
-                                    parent_paragraph_by_paragraph.get(&p.id)
-                                {
-                                    parent_comment_id =
-                                        comment_id_by_paragraph.get(parent_paragraph_id).copied();
-                                    if parent_comment_id.is_some() {
-                                        break;
-                                    }
+                        for id in para_ids_in_comment(comment) {
+                            if let Some(parent_paragraph_id) = parent_paragraph_by_paragraph.get(id)
+                            {
+                                parent_comment_id =
+                                    comment_id_by_paragraph.get(parent_paragraph_id).copied();
+                                if parent_comment_id.is_some() {
+                                    break;
                                 }
                             }
                         }
-- 
2.43.0


From b335c4104e6523f3861f5ffcb262f34d2f06c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:39 +0000
Subject: [PATCH 67/75] fix: write the headers and footers of section breaks on
 paragraphs

---
 docx-core/src/documents/document.rs | 157 ++++++++++++++++++++--------
 docx-core/src/documents/mod.rs      |   6 ++
 2 files changed, 118 insertions(+), 45 deletions(-)

diff --git a/docx-core/src/documents/document.rs b/docx-core/src/documents/document.rs
index 19f6f96..b5f0852 100644
--- a/docx-core/src/documents/document.rs
+++ b/docx-core/src/documents/document.rs
@@ -252,71 +252,138 @@ impl Document {
         self
     }
 
-    /// Iterates the section properties in the order in which their header and
+    /// Lists the section properties in the order in which their header and
     /// footer parts are numbered.
-    pub(crate) fn section_properties_mut(&mut self) -> impl Iterator<Item = &mut SectionProperty> {
-        std::iter::once(&mut self.section_property).chain(self.children.iter_mut().filter_map(
-            |child| match child {
-                DocumentChild::Section(section) => Some(&mut section.property),
-                _ => None,
-            },
-        ))
+    pub(crate) fn section_properties(&self) -> Vec<&SectionProperty> {
+        let mut properties = vec![&self.section_property];
+        for child in &self.children {
+            match child {
+                DocumentChild::Paragraph(p) => properties.extend(&p.property.section_property),
+                DocumentChild::StructuredDataTag(tag) => {
+                    collect_section_properties_in_tag(tag, &mut properties)
+                }
+                DocumentChild::Section(section) => {
+                    collect_section_properties_in_section(section, &mut properties)
+                }
+                _ => {}
+            }
+        }
+        properties
+    }
+
+    /// Lists mutable section properties in the same order as
+    /// [`Self::section_properties`].
+    pub(crate) fn section_properties_mut(&mut self) -> Vec<&mut SectionProperty> {
+        let mut properties = vec![&mut self.section_property];
+        for child in &mut self.children {
+            match child {
+                DocumentChild::Paragraph(p) => properties.extend(&mut p.property.section_property),
+                DocumentChild::StructuredDataTag(tag) => {
+                    collect_section_properties_in_tag_mut(tag, &mut properties)
+                }
+                DocumentChild::Section(section) => {
+                    collect_section_properties_in_section_mut(section, &mut properties)
+                }
+                _ => {}
+            }
+        }
+        properties
     }
 
     /// Iterates headers in the order in which their parts are numbered.
     ///
-    /// The document property comes first and section children follow in
+    /// The document property comes first and the sections follow in
     /// insertion order. Preserving that order avoids a sort and keeps
     /// double-digit IDs aligned with numbered package parts.
     pub(crate) fn headers(&self) -> impl Iterator<Item = &(String, Header)> {
-        self.section_property.headers().chain(
-            self.children
-                .iter()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.headers()),
-        )
+        self.section_properties()
+            .into_iter()
+            .flat_map(|property| property.headers())
     }
 
     /// Iterates mutable headers in the same order as [`Self::headers`].
     pub(crate) fn headers_mut(&mut self) -> impl Iterator<Item = &mut (String, Header)> {
-        self.section_property.headers_mut().chain(
-            self.children
-                .iter_mut()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.headers_mut()),
-        )
+        self.section_properties_mut()
+            .into_iter()
+            .flat_map(|property| property.headers_mut())
     }
 
     /// Iterates footers in the order in which their parts are numbered.
     pub(crate) fn footers(&self) -> impl Iterator<Item = &(String, Footer)> {
-        self.section_property.footers().chain(
-            self.children
-                .iter()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.footers()),
-        )
+        self.section_properties()
+            .into_iter()
+            .flat_map(|property| property.footers())
     }
 
     /// Iterates mutable footers in the same order as [`Self::footers`].
     pub(crate) fn footers_mut(&mut self) -> impl Iterator<Item = &mut (String, Footer)> {
-        self.section_property.footers_mut().chain(
-            self.children
-                .iter_mut()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.footers_mut()),
-        )
+        self.section_properties_mut()
+            .into_iter()
+            .flat_map(|property| property.footers_mut())
+    }
+}
+
+fn collect_section_properties_in_section<'a>(
+    section: &'a Section,
+    properties: &mut Vec<&'a SectionProperty>,
+) {
+    for child in &section.children {
+        match child {
+            SectionChild::Paragraph(p) => properties.extend(&p.property.section_property),
+            SectionChild::StructuredDataTag(tag) => {
+                collect_section_properties_in_tag(tag, properties)
+            }
+            _ => {}
+        }
+    }
+    properties.push(&section.property);
+}
+
+fn collect_section_properties_in_tag<'a>(
+    tag: &'a StructuredDataTag,
+    properties: &mut Vec<&'a SectionProperty>,
+) {
+    for child in &tag.children {
+        match child {
+            StructuredDataTagChild::Paragraph(p) => properties.extend(&p.property.section_property),
+            StructuredDataTagChild::StructuredDataTag(tag) => {
+                collect_section_properties_in_tag(tag, properties)
+            }
+            _ => {}
+        }
+    }
+}
+
+fn collect_section_properties_in_section_mut<'a>(
+    section: &'a mut Section,
+    properties: &mut Vec<&'a mut SectionProperty>,
+) {
+    for child in &mut section.children {
+        match child {
+            SectionChild::Paragraph(p) => properties.extend(&mut p.property.section_property),
+            SectionChild::StructuredDataTag(tag) => {
+                collect_section_properties_in_tag_mut(tag, properties)
+            }
+            _ => {}
+        }
+    }
+    properties.push(&mut section.property);
+}
+
+fn collect_section_properties_in_tag_mut<'a>(
+    tag: &'a mut StructuredDataTag,
+    properties: &mut Vec<&'a mut SectionProperty>,
+) {
+    for child in &mut tag.children {
+        match child {
+            StructuredDataTagChild::Paragraph(p) => {
+                properties.extend(&mut p.property.section_property)
+            }
+            StructuredDataTagChild::StructuredDataTag(tag) => {
+                collect_section_properties_in_tag_mut(tag, properties)
+            }
+            _ => {}
+        }
     }
 }
 
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 67eb041..3877e7e 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1457,6 +1457,9 @@ fn collect_para_ids_in_paragraph<'a>(
     counts: &mut HashMap<&'a str, usize>,
 ) {
     *counts.entry(paragraph.id.as_str()).or_insert(0) += 1;
+    if let Some(property) = &paragraph.property.section_property {
+        collect_para_ids_in_section_property(property, counts);
+    }
 
     for child in &paragraph.children {
         match child {
@@ -1789,6 +1792,9 @@ fn refresh_para_ids_in_paragraph(
     seen: &mut HashSet<String>,
 ) {
     ensure_unique_paragraph_id(paragraph, duplicates, used, seen);
+    if let Some(property) = &mut paragraph.property.section_property {
+        refresh_para_ids_in_section_property(property, duplicates, used, seen);
+    }
 
     for child in &mut paragraph.children {
         match child {
-- 
2.43.0


From 1d089e19eb873ce5652e365d901e40884d06c5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:22:27 +0000
Subject: [PATCH 68/75] fix: read the headers and footers of every section

---
 docx-core/src/reader/read_docx.rs | 133 ++++++++++++------------------
 1 file changed, 52 insertions(+), 81 deletions(-)

diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index 4bb649e..9423ba1 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -244,94 +244,65 @@ pub(crate) fn read_package(
     };
     docx = docx.document(document);
 
-    // assign headers
-    if let Some(h) = docx.document.section_property.header_reference.clone() {
-        if let Some((header, rels)) = headers.get(&h.id) {
-            docx.document = docx.document.header(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, parts, options.generate_image_previews);
+    // assign headers and footers
+    let mut stories_rels = vec![];
+    for property in docx.document.section_properties_mut() {
+        if let Some(h) = property.header_reference.clone() {
+            if let Some((header, rels)) = headers.get(&h.id) {
+                *property = std::mem::take(property).header(header.clone(), &h.id);
+                docx.document_rels.header_count += 1;
+                docx.content_type = docx.content_type.add_header();
+                stories_rels.push(rels);
+            }
         }
-    }
-    if let Some(ref h) = docx
-        .document
-        .section_property
-        .first_header_reference
-        .clone()
-    {
-        if let Some((header, rels)) = headers.get(&h.id) {
-            docx.document = docx
-                .document
-                .first_header_without_title_pg(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, parts, options.generate_image_previews);
+        if let Some(h) = property.first_header_reference.clone() {
+            if let Some((header, rels)) = headers.get(&h.id) {
+                *property =
+                    std::mem::take(property).first_header_without_title_pg(header.clone(), &h.id);
+                docx.document_rels.header_count += 1;
+                docx.content_type = docx.content_type.add_header();
+                stories_rels.push(rels);
+            }
         }
-    }
-    if let Some(ref h) = docx.document.section_property.even_header_reference.clone() {
-        if let Some((header, rels)) = headers.get(&h.id) {
-            docx.document = docx.document.even_header(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, parts, options.generate_image_previews);
+        if let Some(h) = property.even_header_reference.clone() {
+            if let Some((header, rels)) = headers.get(&h.id) {
+                *property = std::mem::take(property).even_header(header.clone(), &h.id);
+                docx.document_rels.header_count += 1;
+                docx.content_type = docx.content_type.add_header();
+                stories_rels.push(rels);
+            }
         }
-    }
-
-    // assign footers
-    if let Some(f) = docx.document.section_property.footer_reference.clone() {
-        if let Some((footer, rels)) = footers.get(&f.id) {
-            docx.document = docx.document.footer(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, parts, options.generate_image_previews);
+        if let Some(f) = property.footer_reference.clone() {
+            if let Some((footer, rels)) = footers.get(&f.id) {
+                *property = std::mem::take(property).footer(footer.clone(), &f.id);
+                docx.document_rels.footer_count += 1;
+                docx.content_type = docx.content_type.add_footer();
+                stories_rels.push(rels);
+            }
         }
-    }
-
-    if let Some(ref f) = docx
-        .document
-        .section_property
-        .first_footer_reference
-        .clone()
-    {
-        if let Some((footer, rels)) = footers.get(&f.id) {
-            docx.document = docx
-                .document
-                .first_footer_without_title_pg(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, parts, options.generate_image_previews);
+        if let Some(f) = property.first_footer_reference.clone() {
+            if let Some((footer, rels)) = footers.get(&f.id) {
+                *property =
+                    std::mem::take(property).first_footer_without_title_pg(footer.clone(), &f.id);
+                docx.document_rels.footer_count += 1;
+                docx.content_type = docx.content_type.add_footer();
+                stories_rels.push(rels);
+            }
         }
-    }
-    if let Some(ref f) = docx.document.section_property.even_footer_reference.clone() {
-        if let Some((footer, rels)) = footers.get(&f.id) {
-            docx.document = docx.document.even_footer(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, parts, options.generate_image_previews);
+        if let Some(f) = property.even_footer_reference.clone() {
+            if let Some((footer, rels)) = footers.get(&f.id) {
+                *property = std::mem::take(property).even_footer(footer.clone(), &f.id);
+                docx.document_rels.footer_count += 1;
+                docx.content_type = docx.content_type.add_footer();
+                stories_rels.push(rels);
+            }
         }
     }
+    // Read media
+    for rels in stories_rels {
+        let media = rels.target_paths(IMAGE_TYPE);
+        docx = add_images(docx, media, parts, options.generate_image_previews);
+    }
 
     // store comments to paragraphs.
     if !comments.inner().is_empty() {
-- 
2.43.0


From 8545e4c3bc2086a3e9fe1d50202e9cfbeb5c7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:21 +0000
Subject: [PATCH 69/75] fix: write the style Normal once

---
 docx-core/src/documents/styles.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/styles.rs b/docx-core/src/documents/styles.rs
index 2eaa748..0b13b92 100644
--- a/docx-core/src/documents/styles.rs
+++ b/docx-core/src/documents/styles.rs
@@ -81,11 +81,14 @@ impl BuildXML for Styles {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        let normal = Style::new("Normal", StyleType::Paragraph).name("Normal");
+        let normal = match self.find_style_by_id("Normal") {
+            Some(_) => None,
+            None => Some(Style::new("Normal", StyleType::Paragraph).name("Normal")),
+        };
         XMLBuilder::from(stream)
             .open_styles()?
             .add_child(&self.doc_defaults)?
-            .add_child(&normal)?
+            .add_optional_child(&normal)?
             .add_children(&self.styles)?
             .close()?
             .into_inner()
-- 
2.43.0


From 03e0d519bf22cd3b3d6950afd747a5e77a432e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:21 +0000
Subject: [PATCH 70/75] fix: read the pictures of comments

---
 docx-core/src/reader/read_docx.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index 9423ba1..f4c25c4 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -227,6 +227,13 @@ pub(crate) fn read_package(
                         comment.parent_comment_id = parent_comment_id;
                     }
                 }
+                let rels = read_header_or_footer_rels(parts, comments_path).unwrap_or_default();
+                docx = add_images(
+                    docx,
+                    rels.target_paths(IMAGE_TYPE),
+                    parts,
+                    options.generate_image_previews,
+                );
                 Comments { comments }
             } else {
                 Comments::default()
-- 
2.43.0


From 245b6a0ceb8a704021c8706d8b95793c4e76c49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:21 +0000
Subject: [PATCH 71/75] fix: keep the pictures and links of a document that was
 read when writing it

---
 docx-core/src/documents/mod.rs | 59 ++++++++++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 3877e7e..04e2760 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -873,6 +873,7 @@ impl Docx {
     /// Prepares the complete document tree for package-part rendering.
     fn prepare_for_build(&mut self) -> bool {
         self.reset();
+        self.restore_read_targets();
         let has_toc = self.expand_auto_tocs();
         self.fill_empty_stories();
         self.end_comments_in_paragraphs();
@@ -885,6 +886,32 @@ impl Docx {
         has_toc
     }
 
+    /// Gives the pictures and links of a document that was read the images and
+    /// addresses they stand for, which the reader keeps apart from them.
+    fn restore_read_targets(&mut self) {
+        let mut targets = ReadTargets {
+            images: self
+                .images
+                .iter()
+                .map(|(id, _, image, _)| (id.as_str(), image.0.as_slice()))
+                .collect(),
+            addresses: self
+                .hyperlinks
+                .iter()
+                .map(|(id, path, _)| (id.as_str(), path.as_str()))
+                .collect(),
+        };
+        visit_document(&mut self.document, &mut targets);
+        // The addresses are those of the main document.
+        targets.addresses.clear();
+        for (_, header) in self.document.headers_mut() {
+            visit_header(header, &mut targets);
+        }
+        for (_, footer) in self.document.footers_mut() {
+            visit_footer(footer, &mut targets);
+        }
+    }
+
     /// Gives headers, footers and comments without a paragraph an empty one.
     fn fill_empty_stories(&mut self) {
         visit_document(&mut self.document, &mut CommentFiller);
@@ -1246,6 +1273,38 @@ impl DocumentTreeVisitor for NumberingFinder {
     }
 }
 
+/// Fills in the images and addresses of pictures and links that were read.
+struct ReadTargets<'a> {
+    images: HashMap<&'a str, &'a [u8]>,
+    addresses: HashMap<&'a str, &'a str>,
+}
+
+impl DocumentTreeVisitor for ReadTargets<'_> {
+    fn visit_picture(&mut self, picture: &mut Pic) {
+        if let Some(image) = self.images.get(picture.id.as_str()) {
+            if picture.image.is_empty() {
+                picture.image = image.to_vec();
+            }
+        }
+    }
+
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        if let HyperlinkData::External { rid, path } = &mut link.link {
+            if let Some(address) = self.addresses.get(rid.as_str()) {
+                if path.is_empty() {
+                    *path = address.to_string();
+                }
+            }
+        }
+    }
+
+    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+        let addresses = std::mem::take(&mut self.addresses);
+        visit_comment(&mut start.comment, self);
+        self.addresses = addresses;
+    }
+}
+
 /// Attaches comments read from the comments part to their ranges.
 struct CommentStore<'a> {
     comments_by_id: HashMap<usize, &'a Comment>,
-- 
2.43.0


From 47578abad8b39324379291f14d59a5826d0d0b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:48 +0000
Subject: [PATCH 72/75] fix: read content controls inside content controls

A content control inside another one was not read as such. Its end was
taken for the end of the outer control, so whatever followed it in the
outer control was read as if it stood outside.
---
 docx-core/src/reader/structured_data_tag.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/docx-core/src/reader/structured_data_tag.rs b/docx-core/src/reader/structured_data_tag.rs
index b97e008..f490918 100644
--- a/docx-core/src/reader/structured_data_tag.rs
+++ b/docx-core/src/reader/structured_data_tag.rs
@@ -67,6 +67,13 @@ impl ElementReader for StructuredDataTag {
                             }
                             continue;
                         }
+                        XMLElement::StructuredDataTag => {
+                            if let Ok(tag) = StructuredDataTag::read(r, &attributes) {
+                                sdt.children
+                                    .push(StructuredDataTagChild::StructuredDataTag(Box::new(tag)));
+                            }
+                            continue;
+                        }
                         XMLElement::Run => {
                             if let Ok(run) = Run::read(r, attrs) {
                                 sdt.children
-- 
2.43.0


From c860e87ccd19a1f4de5aab816ff81cf01524f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:53 +0000
Subject: [PATCH 73/75] fix: read the instructions of deleted fields

---
 docx-core/src/reader/run.rs         | 14 ++++++++++++++
 docx-core/src/reader/xml_element.rs |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 5efe912..d4dbedb 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -118,6 +118,20 @@ impl ElementReader for Run {
                                         _ => {}
                                     }
                                 },
+                                XMLElement::DeleteInstrText => loop {
+                                    let e = r.next_event();
+                                    match e {
+                                        Ok(XmlEvent::Characters(c) | XmlEvent::Whitespace(c)) => {
+                                            run = run.add_delete_instr_text(
+                                                DeleteInstrText::Unsupported(c),
+                                            );
+                                            break;
+                                        }
+                                        Ok(XmlEvent::EndElement { .. }) => break,
+                                        Err(_) => return Err(ReaderError::XMLReadError),
+                                        _ => {}
+                                    }
+                                },
                                 _ => {}
                             }
                         }
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 384e4f6..465fcef 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -28,6 +28,7 @@ pub enum XMLElement {
     Text,
     FieldChar,
     InstrText,
+    DeleteInstrText,
     Hyperlink,
     Highlight,
     VertAlign,
@@ -283,6 +284,7 @@ impl FromStr for XMLElement {
             "t" => Ok(XMLElement::Text),
             "fldChar" => Ok(XMLElement::FieldChar),
             "instrText" => Ok(XMLElement::InstrText),
+            "delInstrText" => Ok(XMLElement::DeleteInstrText),
             "hyperlink" => Ok(XMLElement::Hyperlink),
             "sz" => Ok(XMLElement::Size),
             "szCs" => Ok(XMLElement::SizeCs),
-- 
2.43.0


From ed409e76ac94203c41df65210f42f028d072732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:06 +0000
Subject: [PATCH 74/75] fix: report failures of the output instead of panicking

---
 docx-core/src/zipper/mod.rs | 61 +++++++++++++++++++++++++++++++++++--
 1 file changed, 58 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/zipper/mod.rs b/docx-core/src/zipper/mod.rs
index 5718408..14e5725 100644
--- a/docx-core/src/zipper/mod.rs
+++ b/docx-core/src/zipper/mod.rs
@@ -2,9 +2,64 @@ use crate::xml_builder::XMLBuilder;
 use crate::{BuildXML, Docx, PackageMetadata, XMLDocx};
 
 use std::io::prelude::*;
-use std::io::Seek;
+use std::io::{Error, ErrorKind, Seek, SeekFrom};
 use zip::write::SimpleFileOptions;
 
+/// An output that stays failed after its first failure.
+///
+/// [`zip::ZipWriter`] tries to complete the archive when it is dropped. After a
+/// failure its state no longer fits the output, so nothing more is sent there.
+struct Output<W> {
+    inner: W,
+    failed: bool,
+}
+
+impl<W> Output<W> {
+    fn new(inner: W) -> Self {
+        Self {
+            inner,
+            failed: false,
+        }
+    }
+
+    fn request<T>(
+        &mut self,
+        mut request: impl FnMut(&mut W) -> std::io::Result<T>,
+    ) -> std::io::Result<T> {
+        if self.failed {
+            return Err(Error::other("the output has failed before"));
+        }
+        loop {
+            match request(&mut self.inner) {
+                Err(e) if e.kind() == ErrorKind::Interrupted => {}
+                result => {
+                    self.failed = result.is_err();
+                    return result;
+                }
+            }
+        }
+    }
+}
+
+impl<W: Write> Write for Output<W> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.request(|inner| match inner.write(buf)? {
+            0 if !buf.is_empty() => Err(ErrorKind::WriteZero.into()),
+            n => Ok(n),
+        })
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.request(|inner| inner.flush())
+    }
+}
+
+impl<W: Seek> Seek for Output<W> {
+    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
+        self.request(|inner| inner.seek(pos))
+    }
+}
+
 /// Renders one XML part into a reusable buffer and writes it to the ZIP entry.
 ///
 /// Buffering one part avoids the many tiny writes that are costly in
@@ -42,7 +97,7 @@ pub fn zip<W>(w: W, xml: XMLDocx) -> zip::result::ZipResult<()>
 where
     W: Write + Seek,
 {
-    let mut zip = zip::ZipWriter::new(w);
+    let mut zip = zip::ZipWriter::new(Output::new(w));
 
     let directory_options = SimpleFileOptions::default();
 
@@ -168,7 +223,7 @@ pub(crate) fn zip_docx<W>(
 where
     W: Write + Seek,
 {
-    let mut zip = zip::ZipWriter::new(writer);
+    let mut zip = zip::ZipWriter::new(Output::new(writer));
     let directory_options = SimpleFileOptions::default();
 
     zip.add_directory("word/", directory_options)?;
-- 
2.43.0


From c05b1edd49c67ef9d809cdfe223b2346626c3402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:59 +0000
Subject: [PATCH 75/75] fix: write the end of a comment between the blocks of a
 content control inside a paragraph

---
 docx-core/src/documents/document_tree.rs |  4 +++
 docx-core/src/documents/mod.rs           | 46 +++++++++++++++++++++---
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index c6725cd..750cfef 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -34,6 +34,9 @@ pub(crate) trait DocumentTreeVisitor {
     /// Visits a hyperlink before its children are traversed.
     fn visit_hyperlink(&mut self, _link: &mut Hyperlink) {}
 
+    /// Visits a structured data tag before its children are traversed.
+    fn visit_structured_data_tag(&mut self, _tag: &mut StructuredDataTag) {}
+
     /// Visits the start of a bookmark.
     fn visit_bookmark_start(&mut self, _bookmark: &mut BookmarkStart) {}
 
@@ -157,6 +160,7 @@ fn visit_table_of_contents(toc: &mut TableOfContents, visitor: &mut impl Documen
 }
 
 fn visit_structured_data_tag(tag: &mut StructuredDataTag, visitor: &mut impl DocumentTreeVisitor) {
+    visitor.visit_structured_data_tag(tag);
     for child in &mut tag.children {
         match child {
             StructuredDataTagChild::Run(run) => visit_run(run, visitor),
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 04e2760..ec7a7b9 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -933,12 +933,9 @@ impl Docx {
     ///
     /// The end of a comment is written with a run, which only a paragraph can hold.
     fn end_comments_in_paragraphs(&mut self) {
-        fn with_end(end: CommentRangeEnd) -> Box<Paragraph> {
-            let mut paragraph = paragraph_without_id();
-            paragraph.children.push(ParagraphChild::CommentEnd(end));
-            Box::new(paragraph)
-        }
+        let with_end = paragraph_with_comment_end;
 
+        visit_document(&mut self.document, &mut CommentEnder);
         let children = std::mem::take(&mut self.document.children);
         for child in children {
             match (child, self.document.children.last_mut()) {
@@ -1325,6 +1322,45 @@ fn paragraph_without_id() -> Paragraph {
     paragraph
 }
 
+/// Moves the ends of comments between the blocks of structured data tags into paragraphs.
+struct CommentEnder;
+
+impl DocumentTreeVisitor for CommentEnder {
+    fn visit_structured_data_tag(&mut self, tag: &mut StructuredDataTag) {
+        if !holds_blocks(tag) {
+            return;
+        }
+        for child in std::mem::take(&mut tag.children) {
+            match (child, tag.children.last_mut()) {
+                (
+                    StructuredDataTagChild::CommentEnd(end),
+                    Some(StructuredDataTagChild::Paragraph(paragraph)),
+                ) => paragraph.children.push(ParagraphChild::CommentEnd(end)),
+                (StructuredDataTagChild::CommentEnd(end), _) => {
+                    let paragraph = paragraph_with_comment_end(end);
+                    tag.children
+                        .push(StructuredDataTagChild::Paragraph(paragraph));
+                }
+                (child, _) => tag.children.push(child),
+            }
+        }
+    }
+}
+
+fn holds_blocks(tag: &StructuredDataTag) -> bool {
+    tag.children.iter().any(|child| match child {
+        StructuredDataTagChild::Paragraph(_) | StructuredDataTagChild::Table(_) => true,
+        StructuredDataTagChild::StructuredDataTag(tag) => holds_blocks(tag),
+        _ => false,
+    })
+}
+
+fn paragraph_with_comment_end(end: CommentRangeEnd) -> Box<Paragraph> {
+    let mut paragraph = paragraph_without_id();
+    paragraph.children.push(ParagraphChild::CommentEnd(end));
+    Box::new(paragraph)
+}
+
 /// Gives comments without any paragraph an empty one, which their replies can
 /// be linked to.
 struct CommentFiller;
-- 
2.43.0

