From 6fbf4bce5bcf4036d32eb9bd50c68f13776a4b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:57 +0000
Subject: [PATCH 1/2] fix: don't recur down the other side when dropping past a
 shared branch

When one side of a node was a branch with additional strong references,
the drop algorithm gave up and dropped the other side recursively.  A long
list whose elements are clones of one shared Rc or Arc nest overflowed the
stack when dropped, and took quadratic time before that.  Treat such a
branch as a leaf, and carry on with the other side.
---
 src/drop.rs | 52 ++++++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/drop.rs b/src/drop.rs
index 596809e..a9d3f98 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -67,7 +67,7 @@ use Datum::EmptyList as TempLeaf;
 /// to take out the inner `Datum` values so that any weak references are
 /// invalidated and do not prevent us from doing the restructuring.  But
 /// unwrapping will fail when there are additional strong references to a
-/// `Datum`, and so we can't do the mutation and so we abort.  This is fine
+/// `Datum`, and so we can't do the mutation and so we leave it.  This is fine
 /// because when there are additional strong references then the referenced
 /// `Datum` won't be dropped anyway when our reference to it is dropped, and so
 /// drop-recursion down into its branches won't happen anyway.
@@ -170,7 +170,7 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
         return // Abort, do nothing
     };
 
-    loop {
+    'restructure: loop {
         // println!("  loop(left:{}, right:{})",
         //          depth(Side::Left, &top_datum), depth(Side::Right, &top_datum));
 
@@ -178,64 +178,64 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
           | Combination{operator: mut left_dr, operands: mut right_dr}
           | List{elem: mut left_dr, next: mut right_dr}
           => {
-              let (left_class, right_class) = (class(&left_dr), class(&right_dr));
+              let (mut left_class, mut right_class) = (class(&left_dr), class(&right_dr));
 
               // Try to select a side that also branches.  When both branch and
               // we're not yet locked in a mode, give preference to the left
               // side (which is often shallower than the right for long lists,
               // which are the most common deep structure).  When locked in a
               // mode, we must go with its side, until we reach its end.
+              //
+              // When a branch can't be taken out, dropping our reference to it
+              // won't recur down into it (because there are additional strong
+              // references to it), and so we can treat it the same as a leaf
+              // and try the other side.  We must not abort while the other side
+              // is a branch that we could take out, because dropping that would
+              // recur down into it.
               let (mode, selected_datum, mut reuse_dr, other_class, other_dr)
-                  = match (mode_lock, left_class, right_class)
+                  = loop { match (mode_lock, left_class, right_class)
               {
                   // If the left node is a branch and we're either at the end of
                   // a mode phase where the right node is a leaf, or we're
-                  // locked in left mode, we must be able to take out the left
-                  // datum to proceed.
+                  // locked in left mode, we try to take out the left datum.
                   | (_, Class::Branch, Class::Leaf)
                   | (Some(Side::Left), Class::Branch, Class::Branch)
                   =>
                       if let Some(left_datum) = trytake(&mut left_dr) {
-                          (Side::Left, left_datum, left_dr, right_class, right_dr)
+                          break (Side::Left, left_datum, left_dr, right_class, right_dr)
                       } else {
-                          // Abort, do nothing more, drop `left_dr` and `right_dr`
-                          break
+                          left_class = Class::Leaf;
                       },
 
                   // If the right node is a branch and we're either at the end
                   // of a mode phase where the left node is a leaf, or we're
-                  // locked in right mode, we must be able to take out the right
-                  // datum to proceed.
+                  // locked in right mode, we try to take out the right datum.
                   | (_, Class::Leaf, Class::Branch)
                   | (Some(Side::Right), Class::Branch, Class::Branch)
                   =>
                       if let Some(right_datum) = trytake(&mut right_dr) {
-                          (Side::Right, right_datum, right_dr, left_class, left_dr)
+                          break (Side::Right, right_datum, right_dr, left_class, left_dr)
                       } else {
-                          // Abort, do nothing more, drop `left_dr` and `right_dr`
-                          break
+                          right_class = Class::Leaf;
                       },
 
                   // If both nodes are branches and we're not locked in a mode,
-                  // we must be able to take out one of the datums to proceed.
-                  // Preference is given to the left datum, but the right can be
-                  // used instead.
+                  // we try to take out one of the datums.  Preference is given
+                  // to the left datum.
                   | (None, Class::Branch, Class::Branch)
                   =>
                       if let Some(left_datum) = trytake(&mut left_dr) {
-                          (Side::Left, left_datum, left_dr, right_class, right_dr)
-                      } else if let Some(right_datum) = trytake(&mut right_dr) {
-                          (Side::Right, right_datum, right_dr, left_class, left_dr)
+                          break (Side::Left, left_datum, left_dr, right_class, right_dr)
                       } else {
-                          // Abort, do nothing more, drop `left_dr` and `right_dr`
-                          break
+                          left_class = Class::Leaf;
                       },
 
-                  // If neither left nor right is a branch, we're all done.
-                  // Abort, do nothing more, drop `left_dr` and `right_dr`.
+                  // If neither left nor right is a branch that we can take out,
+                  // we're all done.  Abort, do nothing more, drop `left_dr` and
+                  // `right_dr`.
                   | (_, Class::Leaf, Class::Leaf)
-                  => break
-              };
+                  => break 'restructure
+              } };
 
               // Restructure or drop, and then iterate on branch next
               match (selected_datum, other_class) {
-- 
2.43.0


From 4ad66f9d2701fabecc58dd1443952f462a2723f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:03 +0000
Subject: [PATCH 2/2] fix: stop parsing at the first error in the parse-all
 helpers

The docs of parse_str_with, parse_stream_with and the in-memory
parse_text_with say that parsing is immediately aborted when an error is
returned.  They used take_while, which asks for one more item after the
error: the form after the error was parsed and its combiners were called, or
more of the stream was waited for, and the result was thrown away.  Don't
ask for another item after an error.
---
 core/src/premade/inmem.rs | 58 +++++++++++++++++++++++----------------
 src/common/helper.rs      | 19 ++++++-------
 2 files changed, 42 insertions(+), 35 deletions(-)

diff --git a/core/src/premade/inmem.rs b/core/src/premade/inmem.rs
index 3e3cdb1..554c32d 100644
--- a/core/src/premade/inmem.rs
+++ b/core/src/premade/inmem.rs
@@ -1,8 +1,6 @@
 //! A `Parser` for parsing inputs that are in-memory strings, for no-heap
 //! constrained applications.
 
-use core::iter::TakeWhile;
-
 use crate::{
     Parser as ParserStruct, ParseIter, ParseIterItem, Combiner, Error, Text as _,
     parser::premade::{SliceDatumAllocator, PairOperatorBindings},
@@ -254,35 +252,47 @@ pub fn parse_text_with<'t, 'p, 'input, 'alloc, 'funs, 'bind, Extra, CombinerErro
     // Note: Couldn't figure out how to make this work:
     // -> impl Iterator<Item = TopFormResult<'input, 'alloc, 'funs, 'bind,
     //                                       Extra, CombinerError>>
-    -> ParseTextWith<'t, 'p, 'input, 'alloc, 'funs, 'bind, Extra, CombinerError,
-                     impl FnMut(&Result<DatumType<'input, 'alloc, Extra>,
-                                        Error<StrPos<'input>, CombinerError>>)
-                                -> bool>
+    -> ParseTextWith<'t, 'p, 'input, 'alloc, 'funs, 'bind, Extra, CombinerError>
 where
     Extra: Eq,
 {
     let input_source_stream = input.iter();
-    let mut already_errored = false;
-    parser.parse(input_source_stream)
-          .take_while(move |r|
-                      if already_errored {
-                          false
-                      } else {
-                          if r.is_err() {
-                              already_errored = true;
-                          }
-                          true
-                      })
+    UpToFirstErr {
+        iter: parser.parse(input_source_stream),
+        already_errored: false,
+    }
 }
 
 type ParseTextWith<'text, 'parser, 'input, 'alloc, 'funs, 'bind,
-                   Extra, CombinerError,
-                   Predicate>
-    = TakeWhile<ParseIter<'parser,
-                          Parser<'input, 'alloc, 'funs, 'bind,
-                                 Extra, CombinerError>,
-                          text::iter::Iter<'text, Text<'input, 'alloc, Extra>>>,
-                Predicate>;
+                   Extra, CombinerError>
+    = UpToFirstErr<ParseIter<'parser,
+                             Parser<'input, 'alloc, 'funs, 'bind,
+                                    Extra, CombinerError>,
+                             text::iter::Iter<'text, Text<'input, 'alloc, Extra>>>>;
+
+/// Iterator adapter that yields the items up to and including the first error,
+/// and that does not call the underlying iterator again after that.
+#[derive(Debug)]
+pub struct UpToFirstErr<I> {
+    iter: I,
+    already_errored: bool,
+}
+
+impl<'input, I, DatumType, CombinerError> Iterator for UpToFirstErr<I>
+    where I: Iterator<Item = Result<DatumType, Error<StrPos<'input>, CombinerError>>>,
+{
+    type Item = I::Item;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.already_errored {
+            None
+        } else {
+            let item = self.iter.next();
+            self.already_errored = matches!(item, Some(Err(_)));
+            item
+        }
+    }
+}
 
 
 #[cfg(test)]
diff --git a/src/common/helper.rs b/src/common/helper.rs
index ea51675..1aeb4ca 100644
--- a/src/common/helper.rs
+++ b/src/common/helper.rs
@@ -14,15 +14,12 @@ pub(crate) fn collect_up_to_first_err<'p, CC, DA, OB, S>
           Parser<CC, DA, OB>: 'p,
           S: SourceStream<DA>,
 {
-    let mut already_errored = false;
-    pi.take_while(|r|
-                  if already_errored {
-                      false
-                  } else {
-                      if r.is_err() {
-                          already_errored = true;
-                      }
-                      true
-                  })
-      .collect()
+    let mut results = Vec::new();
+    for result in pi {
+        let errored = result.is_err();
+        results.push(result);
+        // Don't ask for any more after an error, because that would parse more.
+        if errored { break }
+    }
+    results
 }
-- 
2.43.0

