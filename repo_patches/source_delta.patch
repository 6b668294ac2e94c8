From 958c6373ab37bde43577658d439c9e90e7077043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:48 +0000
Subject: [PATCH 01/25] fix: moving the cursor right by a huge distance
 overflows instead of clamping

---
 ogma-shell/interface/input.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-shell/interface/input.rs b/ogma-shell/interface/input.rs
index dcc1c42..b2f244d 100644
--- a/ogma-shell/interface/input.rs
+++ b/ogma-shell/interface/input.rs
@@ -89,7 +89,7 @@ impl InputBuffer {
 
     pub fn move_right(&mut self, by: Mvmt) {
         let n = mv_magnitude(by, self.buf[self.pos..].iter().copied());
-        self.pos = std::cmp::min(self.pos + n, self.buf.len());
+        self.pos = std::cmp::min(self.pos.saturating_add(n), self.buf.len());
     }
 
     pub fn buffer_changed(&self) -> bool {
-- 
2.43.0


From eb20d4d589789005ebfa7e73b26358b529c7c6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 02/25] fix: terminal event thread keeps reading after its
 receiver is dropped

---
 ogma-shell/interface/events.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-shell/interface/events.rs b/ogma-shell/interface/events.rs
index 29ea9de..d2c34a8 100644
--- a/ogma-shell/interface/events.rs
+++ b/ogma-shell/interface/events.rs
@@ -21,7 +21,7 @@ impl Events {
                 while let Ok(ev) = read() {
                     if let Some(ev) = Event::convert_xt(ev) {
                         if tx.send(ev).is_err() {
-                            break;
+                            return; // the receiver has been dropped
                         }
                     }
                 }
-- 
2.43.0


From 0a45274eb551dad767fde694fe522f865376f284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:23 +0000
Subject: [PATCH 03/25] fix: definitions stay locked while an error with help
 is written, which locks them again

---
 ogma-shell/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index 5550e97..fd96aaf 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -305,7 +305,8 @@ impl RunState {
         use ::ogma::{lang::Value::*, rt::process_expression as proc};
         let wsp = self.wsp.clone();
         self.process_seq(tab_id, cancelled, buf, move |cx| {
-            let d = &wsp.defs.read();
+            let defs = wsp.defs.read();
+            let d = &defs;
             let e = expr;
             let l = Location::Shell;
             let root = cx.root;
@@ -322,6 +323,9 @@ impl RunState {
                 ),
             };
 
+            // writing an error with help reads the definitions again
+            drop(defs);
+
             let mut buf = Vec::new();
             write_result(r, &wsp, &mut buf);
             String::from_utf8(buf).expect("all written output should be utf8")
-- 
2.43.0


From f2f803775a439b07309cb9a311efc08a850905b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:24 +0000
Subject: [PATCH 04/25] fix: loading definitions prints every item's
 documentation to the terminal

---
 ogma/src/lang/defs.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ogma/src/lang/defs.rs b/ogma/src/lang/defs.rs
index 8d3beec..c552e4d 100644
--- a/ogma/src/lang/defs.rs
+++ b/ogma/src/lang/defs.rs
@@ -201,7 +201,6 @@ the row is assumed to be populated with strings, if not an error occurs",
         // parse and add each def
         let mut count = 0;
         for item in items.types.into_iter().chain(items.impls).map(|(_, x)| x) {
-            dbg!(&item.doc);
             let lang::parse::Item { doc, code, line } = item;
             process_definition(&code, Location::File(file.clone(), line), doc, self)?;
             count += 1;
-- 
2.43.0


From 3c422aaa6195f60f64dcc1976f6f9a0d50b2f04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:24 +0000
Subject: [PATCH 05/25] fix: a path in place of a command panics instead of not
 being found

---
 ogma/src/eng/graphs/astgraph.rs | 8 ++------
 ogma/src/lang/syntax/ast.rs     | 5 +----
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/ogma/src/eng/graphs/astgraph.rs b/ogma/src/eng/graphs/astgraph.rs
index 3ba01ae..721a0d5 100644
--- a/ogma/src/eng/graphs/astgraph.rs
+++ b/ogma/src/eng/graphs/astgraph.rs
@@ -180,12 +180,8 @@ impl AstGraph {
                     out_ty,
                 } = blk.parts();
 
-                let op = match op.is_op() {
-                    Some(t) => t.clone(),
-                    None => {
-                        todo!("paths are not supported yet")
-                    }
-                };
+                // a path is not supported yet, no operation of that name will be found
+                let op = op.tag().into_owned();
 
                 let op = g.add_node(AstNode::Op { op, blk: blk_tag });
                 g.add_edge(root, op, Relation::Normal); // edge from the expression root to the op
diff --git a/ogma/src/lang/syntax/ast.rs b/ogma/src/lang/syntax/ast.rs
index 574332f..1ac950b 100644
--- a/ogma/src/lang/syntax/ast.rs
+++ b/ogma/src/lang/syntax/ast.rs
@@ -269,10 +269,7 @@ pub struct PrefixBlock {
 
 impl IBlock for PrefixBlock {
     fn op(&self) -> CTag {
-        match self.op.is_op() {
-            Some(x) => Cow::Borrowed(x),
-            None => panic!("partitions are not yet supported"),
-        }
+        self.op.tag()
     }
 
     fn terms(&self) -> Cow<[Term]> {
-- 
2.43.0


From c1500cb25fed6363ef480519031663cc36222db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:24 +0000
Subject: [PATCH 06/25] fix: completing where a path is expected panics instead
 of offering nothing

---
 ogma-ls/completion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-ls/completion.rs b/ogma-ls/completion.rs
index 4d635ab..a2bfbb5 100644
--- a/ogma-ls/completion.rs
+++ b/ogma-ls/completion.rs
@@ -94,7 +94,7 @@ fn incomplete_completions(
         )),
         Exp::SPECLITERAL => Some(cmpls(wsp, line, working_dir, Items::SPEC_LIT)),
         Exp::NONE => None,
-        _ => todo!(),
+        _ => None,
     }
 }
 
-- 
2.43.0


From 242e9f0d90a54b0a1aab9273dbd3a1041de8eed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:50 +0000
Subject: [PATCH 07/25] fix: def-ty --help, --list and --clear panic instead of
 returning an error

---
 ogma/src/lang/defs.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ogma/src/lang/defs.rs b/ogma/src/lang/defs.rs
index c552e4d..4d5d2dc 100644
--- a/ogma/src/lang/defs.rs
+++ b/ogma/src/lang/defs.rs
@@ -379,8 +379,21 @@ fn process_ty<'a>(
     help: Option<String>,
     defs: &mut Definitions,
 ) -> DefResult<'a> {
+    let unsupported = |flag: &str| Error {
+        cat: err::Category::Definitions,
+        desc: format!("`def-ty` does not support `{}` yet", flag),
+        traces: vec![Trace {
+            loc: loc.clone(),
+            source: s.to_string(),
+            len: s.len(),
+            ..Default::default()
+        }],
+        ..Error::default()
+    };
+
     if s.contains("--help") {
-        todo!("need to create a def-ty help message");
+        // TODO need to create a def-ty help message
+        Err(unsupported("--help"))
     //         let help = HelpMessage {
     //             desc: "define a command that encapsulates an expression
     // def has specialised syntax which takes variable params: ( )"
@@ -414,10 +427,12 @@ fn process_ty<'a>(
     //         };
     //         Err(help_as_error("def", &help))
     } else if s.contains(" --list") {
-        todo!("need to create a listing of types")
+        // TODO need to create a listing of types
+        Err(unsupported("--list"))
     //         Ok(Value::Tab(construct_def_table(defs)))
     } else if s.contains(" --clear") {
-        todo!("need to handle clearing of types")
+        // TODO need to handle clearing of types
+        Err(unsupported("--clear"))
     //         defs.clear(false);
     //         Ok(Value::Nil)
     } else {
-- 
2.43.0


From 9ac48936b5e7610d642032d78acd50120fd50976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:12 +0000
Subject: [PATCH 08/25] fix: type flows which do not match panic instead of
 returning a conflict

---
 ogma/src/eng/graphs/tygraph.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ogma/src/eng/graphs/tygraph.rs b/ogma/src/eng/graphs/tygraph.rs
index 4d2eda6..3e6441b 100644
--- a/ogma/src/eng/graphs/tygraph.rs
+++ b/ogma/src/eng/graphs/tygraph.rs
@@ -769,12 +769,14 @@ impl Knowledge {
             (Inferred(_), Any) => Ok(()),
             // An inferred source can flow into itself if the types match
             (Inferred(t1), Inferred(t2)) if t1 == t2 => Ok(()),
+            // An inferred source with a single type can flow into itself if the types match
+            (Inferred(t1), Inferred(t2)) if t1.only().map_or(false, |t| t2.contains(t)) => Ok(()),
 
             // An any source can flow into an Any or Inferred dest
             (Any, Any | Inferred(_)) => Ok(()),
 
-            // Cannot flow if two known unmatching types
-            (Known(t1), Known(t2)) if t1 != t2 => Err(ConflictingKnown {
+            // Cannot flow if two known unmatching types, or an obliged into an unmatching known
+            (Known(t1) | Obliged(t1), Known(t2)) if t1 != t2 => Err(ConflictingKnown {
                 src: t1.clone(),
                 dst: t2.clone(),
             }),
@@ -805,8 +807,14 @@ impl Knowledge {
             // Cannot flow if trying to flow an Inferred into an Obliged or Known,
             // even if the types match.
             (Inferred(ts), Known(t2) | Obliged(t2)) if ts.contains(t2) => Err(OverpoweringInferred),
+            // Cannot flow if the types do not match
+            (Inferred(ts), Known(t2) | Obliged(t2)) => Err(UnmatchedInferred {
+                src: ts.clone(),
+                dst: TypesSet::single(t2.clone()),
+            }),
 
-            (a, b) => todo!("have not handled flow: {:?} -> {:?}", a, b),
+            // Only sources with a single type flow, and `Any` into an unknown dest
+            (a, b) => unreachable!("flow from {:?} to {:?}", a, b),
         }
     }
 }
-- 
2.43.0


From 880c1608d2c36f6b280446df882a4ebafcbddf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:21 +0000
Subject: [PATCH 09/25] fix: which failing row's error a table command returns
 depends on thread timing

---
 ogma/src/lang/impls/intrinsics/mod.rs      | 29 +++++++++++-----------
 ogma/src/lang/impls/intrinsics/morphism.rs | 16 ++++++------
 2 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/mod.rs b/ogma/src/lang/impls/intrinsics/mod.rs
index ab0ccd4..3b063ea 100644
--- a/ogma/src/lang/impls/intrinsics/mod.rs
+++ b/ogma/src/lang/impls/intrinsics/mod.rs
@@ -218,26 +218,25 @@ fn type_flag(blk: &mut Block) -> Result<Option<Type>> {
 /// 3. The callback should use `*T = foo` to update-in-place.
 /// 4. Errors should be propagated through.
 ///
-/// This method utilises `rayon`'s `for_each_init` to seed the colmap amongst workers.
+/// This method utilises `rayon`'s `map_init` to seed the colmap amongst workers.
 fn par_over_tablerows<T, F>(buf: &mut [T], table: &Table, cx: &Context, f: F) -> Result<()>
 where
     F: Fn(&mut T, &mut Context, TableRow) -> Result<()> + Sync,
     T: Send,
 {
-    let err = crate::Mutex::new(None);
-    buf.par_iter_mut().enumerate().skip(1).for_each_init(
-        || (Default::default(), cx.clone()),
-        |(colmap, cx): &mut (types::TableRowColMap, _), (row, x)| {
-            let trow = TableRow::new(table.clone(), colmap.clone(), row);
-            if let Err(e) = f(x, cx, trow) {
-                *err.lock() = Some(e);
-            }
-        },
-    );
-    err.into_inner()
-        .map(Result::<()>::Err)
-        .transpose()
-        .map(|_| ())
+    // the error of the first row that fails is returned, regardless of which worker finishes when
+    buf.par_iter_mut()
+        .enumerate()
+        .skip(1)
+        .map_init(
+            || (Default::default(), cx.clone()),
+            |(colmap, cx): &mut (types::TableRowColMap, _), (row, x)| {
+                let trow = TableRow::new(table.clone(), colmap.clone(), row);
+                f(x, cx, trow).err()
+            },
+        )
+        .find_map_first(|e| e)
+        .map_or(Ok(()), Err)
 }
 
 /// Create an argument list where each argument expects Nil input and resolves to a Str.
diff --git a/ogma/src/lang/impls/intrinsics/morphism.rs b/ogma/src/lang/impls/intrinsics/morphism.rs
index 6452490..20f2501 100644
--- a/ogma/src/lang/impls/intrinsics/morphism.rs
+++ b/ogma/src/lang/impls/intrinsics/morphism.rs
@@ -100,22 +100,20 @@ fn append_table(mut table: Table, cx: &Context, with: &[(eng::Argument, Str)]) -
 
     // calculate appending values
     // parallelised over the expressions _and_ the rows
-    let err = crate::Mutex::new(None);
-    to_append
+    let err = to_append
         .par_iter_mut()
         .enumerate()
-        .for_each(|(withidx, av)| {
+        .find_map_first(|(withidx, av)| {
             let predicate = with[withidx].0.resolver_sync(cx);
-            if let Err(e) = par_over_tablerows(av, &table, cx, |a, _, trow| {
+            par_over_tablerows(av, &table, cx, |a, _, trow| {
                 *a = predicate(trow.into())?.into();
                 Ok(())
-            }) {
-                *err.lock() = Some(e);
-            }
+            })
+            .err()
         });
 
-    // return any error found
-    if let Some(e) = err.into_inner() {
+    // return the error of the first column that failed
+    if let Some(e) = err {
         return Err(e);
     }
 
-- 
2.43.0


From f53d303f6d83b99a647c771323b47561468f4425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 10/25] fix: equal table rows compare unequal when their index
 caches differ

---
 ogma/src/lang/types.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ogma/src/lang/types.rs b/ogma/src/lang/types.rs
index 2607649..6c25af2 100644
--- a/ogma/src/lang/types.rs
+++ b/ogma/src/lang/types.rs
@@ -794,9 +794,8 @@ impl TableRow {
 
 impl PartialEq for TableRow {
     fn eq(&self, other: &Self) -> bool {
-        self.idx == other.idx
-            && self.table == other.table
-            && Arc::ptr_eq(&self.cached_col_indices, &other.cached_col_indices)
+        // the cached indices do not take part, they follow from the table
+        self.idx == other.idx && self.table == other.table
     }
 }
 
-- 
2.43.0


From 9397fcd2abbe19faa7c551c75d731da09dcca88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:21 +0000
Subject: [PATCH 11/25] fix: nth with the largest index overflows instead of
 being out of bounds

---
 ogma/src/lang/impls/intrinsics/pipeline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma/src/lang/impls/intrinsics/pipeline.rs b/ogma/src/lang/impls/intrinsics/pipeline.rs
index ee3baaa..6bdee21 100644
--- a/ogma/src/lang/impls/intrinsics/pipeline.rs
+++ b/ogma/src/lang/impls/intrinsics/pipeline.rs
@@ -537,7 +537,7 @@ fn nth_table_intrinsic(mut blk: Block) -> Result<Step> {
             .resolve(|| table.clone(), &cx)
             .and_then(|v| cnv_num_to_uint::<usize>(v, &n.tag))?;
         let table = Table::try_from(table)?;
-        if nth + 1 >= table.rows_len() {
+        if nth >= table.rows_len().saturating_sub(1) {
             return Err(Error::eval(
                 &n.tag,
                 "index is outside table bounds",
-- 
2.43.0


From aab2c4f8ecb2144c8769a6310b494d4d1f9e9058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:44 +0000
Subject: [PATCH 12/25] fix: skipping the largest number of rows of a shared
 table overflows

---
 ogma/src/lang/impls/intrinsics/morphism.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma/src/lang/impls/intrinsics/morphism.rs b/ogma/src/lang/impls/intrinsics/morphism.rs
index 20f2501..621ce56 100644
--- a/ogma/src/lang/impls/intrinsics/morphism.rs
+++ b/ogma/src/lang/impls/intrinsics/morphism.rs
@@ -1313,7 +1313,7 @@ fn skip_table_intrinsic(mut blk: Block) -> Result<Step> {
             let rows = table
                 .rows()
                 .take(1)
-                .chain(table.rows().skip(count + 1))
+                .chain(table.rows().skip(1).skip(count))
                 .map(|x| x.cloned());
             let mut t = ::table::Table::new();
             t.add_rows(rows);
-- 
2.43.0


From d6c580179df09258fa9ab41ac6ebe2e8d0e249a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:43 +0000
Subject: [PATCH 13/25] fix: requests the language server does not know are
 never answered

---
 ogma-ls/server/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ogma-ls/server/mod.rs b/ogma-ls/server/mod.rs
index 06fb23d..cf62c30 100644
--- a/ogma-ls/server/mod.rs
+++ b/ogma-ls/server/mod.rs
@@ -131,6 +131,17 @@ impl Server {
             });
         } else {
             debug!("request not registered: '{}'", req.method);
+            let err = Error {
+                code: ErrorCode::MethodNotFound,
+                message: format!("request not supported: '{}'", req.method),
+                data: None,
+            };
+            let resp = Response {
+                id: req.id,
+                result: None,
+                error: Some(err.into()),
+            };
+            self.tx.send(resp.into()).ok();
         }
     }
 
@@ -221,7 +232,7 @@ impl From<Error> for lsp_server::ResponseError {
 enum ErrorCode {
     // ParseError,
     // InvalidRequest,
-    // MethodNotFound,
+    MethodNotFound,
     InvalidParams,
     InternalError,
     // ServerError(i32),
@@ -232,7 +243,7 @@ impl From<ErrorCode> for i32 {
         match ec {
             // ErrorCode::ParseError => -32700,
             // ErrorCode::InvalidRequest => -32600,
-            // ErrorCode::MethodNotFound => -32601,
+            ErrorCode::MethodNotFound => -32601,
             ErrorCode::InvalidParams => -32602,
             ErrorCode::InternalError => -32603,
             // ErrorCode::ServerError(code) => code,
-- 
2.43.0


From b20048dec19ddb1dbde5a789c410c7f8fe593617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:43 +0000
Subject: [PATCH 14/25] fix: document notifications are handled in any order,
 losing or mixing up edits

---
 ogma-ls/server/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ogma-ls/server/mod.rs b/ogma-ls/server/mod.rs
index cf62c30..fcecade 100644
--- a/ogma-ls/server/mod.rs
+++ b/ogma-ls/server/mod.rs
@@ -147,8 +147,8 @@ impl Server {
 
     fn handle_notification(&self, notif: Notification) {
         if let Some(f) = self.notifications_handlers.get(notif.method.as_str()) {
-            let f = Arc::clone(f);
-            rayon::spawn(move || f.call(notif.params));
+            // notifications take effect in the order they are sent, so are not handled in parallel
+            f.call(notif.params);
         } else {
             debug!("notification not registered: '{}'", notif.method);
         }
-- 
2.43.0


From 040476861f8642be19cb9b5a35b72af2a7d6a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:43 +0000
Subject: [PATCH 15/25] fix: edits of documents whose versions skip a number
 are never applied

---
 ogma-ls/workspace.rs | 48 ++++++++++----------------------------------
 1 file changed, 11 insertions(+), 37 deletions(-)

diff --git a/ogma-ls/workspace.rs b/ogma-ls/workspace.rs
index 7bc6908..eea1369 100644
--- a/ogma-ls/workspace.rs
+++ b/ogma-ls/workspace.rs
@@ -6,7 +6,7 @@ use ogma::{
     common::err::help_as_error,
     lang::{ast::Tag, Definitions},
 };
-use std::{collections::VecDeque, sync::Arc};
+use std::sync::Arc;
 
 type Version = i32;
 type ChgList = Vec<TextDocumentContentChangeEvent>;
@@ -196,57 +196,31 @@ impl Clone for Workspace {
 pub struct File {
     text: String,
     version: Version,
-    pending: VecDeque<Change>,
 }
 
 impl File {
     pub fn new(text: String, version: Version) -> Self {
-        Self {
-            text,
-            version,
-            pending: VecDeque::new(),
-        }
+        Self { text, version }
     }
 
+    /// Apply the changes which lead to `version`.
+    ///
+    /// Versions increase, but not necessarily by one.
     pub fn add_changes(&mut self, version: Version, changes: ChgList) {
-        let i = self
-            .pending
-            .iter()
-            .position(|c| c.version >= version)
-            .unwrap_or(self.pending.len());
-
-        self.pending.insert(i, Change { version, changes });
-
-        self.apply_pending();
-    }
-
-    fn apply_pending(&mut self) {
-        let text = &mut self.text;
-
-        while let Some(chg) = self.pending.pop_front() {
-            if chg.version < self.version {
-                continue;
-            } else if chg.version > self.version + 1 {
-                self.pending.push_front(chg);
-                break;
-            }
-
-            self.version = chg.version;
-            apply_changes(text, &chg.changes);
+        if version < self.version {
+            return;
         }
 
+        self.version = version;
+        apply_changes(&mut self.text, &changes);
+
         debug!(
             "applied doc edits. VERSION: {}; TEXT: {:?}",
-            self.version, text
+            self.version, self.text
         );
     }
 }
 
-struct Change {
-    version: Version,
-    changes: ChgList,
-}
-
 fn apply_changes(text: &mut String, chgs: &[TextDocumentContentChangeEvent]) {
     for chg in chgs {
         let range = chg
-- 
2.43.0


From 5cccd877c0a4f2c131cf4d0c056da655e553f50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:43 +0000
Subject: [PATCH 16/25] fix: a position inside a surrogate pair means the end
 of the line

---
 ogma-ls/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-ls/lib.rs b/ogma-ls/lib.rs
index 51d0c4d..0cf609a 100644
--- a/ogma-ls/lib.rs
+++ b/ogma-ls/lib.rs
@@ -20,7 +20,7 @@ fn linech_to_idx(line: &str, chpos: usize) -> usize {
     let mut co_utf16 = 0;
     let mut co_utf8 = 0;
     for ch in line.chars() {
-        if co_utf16 == chpos {
+        if co_utf16 >= chpos {
             break;
         }
 
-- 
2.43.0


From 0dd74633b31adc2d0b4a55ab914aa62247ed4759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:43 +0000
Subject: [PATCH 17/25] fix: an edit whose range ends before it starts panics

---
 ogma-ls/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ogma-ls/lib.rs b/ogma-ls/lib.rs
index 0cf609a..d2b8c80 100644
--- a/ogma-ls/lib.rs
+++ b/ogma-ls/lib.rs
@@ -49,7 +49,9 @@ fn pos_to_idx(s: &str, pos: Position) -> usize {
 }
 
 fn lsp_range_to_range(s: &str, range: Range) -> std::ops::Range<usize> {
-    pos_to_idx(s, range.start)..pos_to_idx(s, range.end)
+    let start = pos_to_idx(s, range.start);
+    let end = pos_to_idx(s, range.end);
+    start..std::cmp::max(start, end)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 96a6d65ba47fa7a69739b05a01f3ec5ca449d955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 18/25] fix: ls, open and save can leave the root directory

---
 ogma/src/lang/impls/intrinsics/io.rs | 93 ++++++++++++++--------------
 1 file changed, 48 insertions(+), 45 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index af83e91..b752ddf 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -1,6 +1,9 @@
 use super::*;
 use rt::fscache::FSCACHE;
-use std::io::{self, Write};
+use std::{
+    io::{self, Write},
+    path::{Path, PathBuf},
+};
 
 pub fn add_intrinsics(impls: &mut Implementations) {
     add! { impls,
@@ -16,22 +19,41 @@ pub fn add_intrinsics(impls: &mut Implementations) {
 /// Joins path onto the current cx working directory.
 /// If the path goes beyond the store root then an error is returned to disallow users to walk
 /// around outside the workspace folders.
-fn scrub_filepath(path: &str, cx: &Context) -> io::Result<std::path::PathBuf> {
-    let root = cx.root;
-    let wd = cx.root.join(cx.wd);
-
-    let wd = wd
-        .join(path)
-        .canonicalize()
-        .map_err(|e| io::Error::new(e.kind(), format!("{}: {}", e, path)))?;
-
-    let root = root
-        .canonicalize()
-        .unwrap_or_else(|_| std::path::PathBuf::from("."));
-
-    wd.strip_prefix(&root)
-        .map(|x| x.to_path_buf())
-        .map_err(|_| io::Error::new(io::ErrorKind::Other, "cannot move above root directory"))
+fn scrub_filepath(path: &str, cx: &Context) -> io::Result<PathBuf> {
+    within_root(&cx.root.join(cx.wd).join(path), cx)
+        .map_err(|e| io::Error::new(e.kind(), format!("{}: {}", e, path)))
+}
+
+/// Akin to [`scrub_filepath`], for a file which might not exist yet.
+fn scrub_new_filepath(path: &str, cx: &Context) -> io::Result<PathBuf> {
+    new_within_root(&cx.root.join(cx.wd).join(path), cx)
+}
+
+/// The canonical form of `path`, if it is not beyond the root.
+fn within_root(path: &Path, cx: &Context) -> io::Result<PathBuf> {
+    let path = path.canonicalize()?;
+    let root = cx.root.canonicalize()?;
+
+    if path.starts_with(root) {
+        Ok(path)
+    } else {
+        Err(above_root())
+    }
+}
+
+/// Akin to [`within_root`], but the trailing components do not have to exist.
+fn new_within_root(path: &Path, cx: &Context) -> io::Result<PathBuf> {
+    match path.symlink_metadata() {
+        Err(e) if e.kind() == io::ErrorKind::NotFound => match (path.parent(), path.file_name()) {
+            (Some(dir), Some(name)) => new_within_root(dir, cx).map(|x| x.join(name)),
+            _ => Err(above_root()),
+        },
+        _ => within_root(path, cx),
+    }
+}
+
+fn above_root() -> io::Error {
+    io::Error::new(io::ErrorKind::Other, "cannot move above root directory")
 }
 
 // ------ List -----------------------------------------------------------------
@@ -101,10 +123,12 @@ fn ls_intrinsic(mut blk: Block) -> Result<Step> {
     blk.eval_o(move |_, cx| {
         if let Some(path) = &path {
             let path: Str = path.resolve(|| Value::Nil, &cx)?.try_into()?;
-            make_dir_table(cx.wd.join(path.as_str()), &blk_tag)
+            within_root(&cx.root.join(cx.wd).join(path.as_str()), &cx)
         } else {
-            make_dir_table(cx.wd, &blk_tag)
+            within_root(&cx.root.join(cx.wd), &cx)
         }
+        .map_err(|e| Error::io(&blk_tag, e))
+        .and_then(|dir| make_dir_table(dir, &blk_tag))
         .and_then(|x| cx.done_o(x))
     })
 }
@@ -301,32 +325,11 @@ fn save_intrinsic(mut blk: Block) -> Result<Step> {
     let blktag = blk.blk_tag().clone();
     blk.eval(ty, move |val, cx| {
         let p: Str = filepath.resolve(|| val.clone(), &cx)?.try_into()?;
-        let p = cx.root.join(cx.wd).join(p.as_str());
-        // check path doesn't go beyond root. can't use scrub_filepath as this uses
-        // canonicalization for checking
-        {
-            use std::path::Component::*;
-            let x = p.components().fold(0i32, |x, c| {
-                x + match c {
-                    RootDir => std::i32::MIN,
-                    CurDir => 0,
-                    ParentDir => -1,
-                    _ => 1,
-                }
-            }); // there is always one for the file name
-            if x <= 0 {
-                Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "cannot move above root directory",
-                ))
-            } else {
-                Ok(())
-            }
-        }
-        .and_then(|_| mkdirs(&p).and_then(|_| std::fs::File::create(p)))
-        .map(std::io::BufWriter::new)
-        .and_then(|mut file| write_file(&mut file, val.clone()))
-        .map_err(|e| Error::io(&blktag, e))?;
+        scrub_new_filepath(&p, &cx)
+            .and_then(|p| mkdirs(&p).and_then(|_| std::fs::File::create(p)))
+            .map(std::io::BufWriter::new)
+            .and_then(|mut file| write_file(&mut file, val.clone()))
+            .map_err(|e| Error::io(&blktag, e))?;
         cx.done(val)
     })
 }
-- 
2.43.0


From f82cf3979f0fa7b9d84c759d2d776772c646ff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 19/25] fix: a panic while processing makes the shell wait for
 ever

---
 ogma-shell/lib.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index fd96aaf..1a92209 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -264,23 +264,19 @@ impl RunState {
         let root = self.root.to_path_buf();
         let wd = self.tab_wd(tab_id).to_path_buf();
         let progress = ProgressTx::dummy();
-        let completed = Switch::off();
-        let completed_clone = completed.clone();
 
         let thread = std::thread::Builder::new()
             .name("ogma-shell-processing".into())
             .spawn(move || {
-                let x = f(Context {
+                f(Context {
                     root: &root,
                     wd: &wd,
                     progress: &progress,
-                });
-                completed_clone.flip_on();
-                x
+                })
             })
             .expect("should be fine spawning a thread");
 
-        while !completed.get() {
+        while !thread.is_finished() {
             if cancelled.get() {
                 return;
             }
-- 
2.43.0


From fd85d124d56fd16ea9c9c17ac4140918b7d16e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 20/25] fix: run reads batch files relative to the process, not
 to the root directory

---
 ogma-shell/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index 1a92209..7d897ef 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -345,7 +345,7 @@ impl RunState {
             (r, None)
         };
         self.validate_path(tab_id, r)
-            .and_then(ogma::rt::bat::parse_file)
+            .and_then(|path| ogma::rt::bat::parse_file(self.root.join(path)))
             .map(|mut batch| {
                 if let Ok(batch) = &mut batch {
                     if let Some(x) = parallelise {
-- 
2.43.0


From f20b74a4aa38a1810d4a7871e8f9f35cbe115548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 21/25] fix: files whose paths differ in case or root share a
 cache entry

---
 ogma/src/rt/fscache.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/ogma/src/rt/fscache.rs b/ogma/src/rt/fscache.rs
index c6ef4a0..2721b30 100644
--- a/ogma/src/rt/fscache.rs
+++ b/ogma/src/rt/fscache.rs
@@ -14,6 +14,8 @@ use std::{
 ::lazy_static::lazy_static! {
     /// The global persistent [`FsCache`].
     pub static ref FSCACHE: FsCache = Default::default();
+    /// The root directories which are watched for changes.
+    static ref WATCHED: Mutex<HashSet<PathBuf>> = Default::default();
 }
 
 const LIFESPAN: Duration = Duration::from_secs(60 * 3); // 3 minutes
@@ -21,11 +23,12 @@ const DEBOUNCE: Duration = Duration::from_millis(5); // 5ms fs watching
 static INIT: Once = Once::new();
 
 #[derive(PartialEq, Eq, Hash)]
-struct Key(String, Type);
+struct Key(PathBuf, Type);
 type Value = (Instant, types::Value);
 type Map = HashMap<Key, Value>;
 
 /// A filesystem cache which caches the [`Value`] along a _path_.
+/// Paths are expected to be canonical.
 ///
 /// This is useful for caching large datasets, usually [`Table`]s which have a non-trival
 /// parsing cost.
@@ -36,7 +39,7 @@ pub struct FsCache {
 
 impl Key {
     fn from<T: AsType>(path: &Path) -> Self {
-        Key(path_to_str(path), T::as_type())
+        Key(path_key(path), T::as_type())
     }
 }
 
@@ -80,7 +83,7 @@ impl FsCache {
         I: Iterator<Item = P>,
         P: AsRef<Path>,
     {
-        let paths: HashSet<String> = paths.map(|p| path_to_str(p.as_ref())).collect();
+        let paths: HashSet<PathBuf> = paths.map(|p| path_key(p.as_ref())).collect();
         if !paths.is_empty() {
             self.map.lock().retain(|k, _| !paths.contains(&k.0));
         }
@@ -90,7 +93,7 @@ impl FsCache {
 /// Ensures the [`FSCACHE`] is initialised.
 ///
 /// Calling this multiple times is safe, once initialised the initialised map will be kept
-/// alive.
+/// alive. Each `root` is watched once.
 ///
 /// # Panics
 /// Panics if `root` can not be canonicalized.
@@ -104,15 +107,24 @@ pub fn ensure_init(root: &Path) {
             .name("ogma-fs-cache-cleaner".to_string())
             .spawn(clean_opened_cache_periodically)
             .unwrap();
+    });
+
+    if WATCHED.lock().insert(canon_root.clone()) {
         std::thread::Builder::new()
             .name("ogma-fs-watcher".to_string())
             .spawn(|| watch_fs(canon_root).expect("failed to start fs watcher"))
             .unwrap();
-    });
+    }
+}
+
+#[cfg(windows)]
+fn path_key(path: &Path) -> PathBuf {
+    path.to_string_lossy().to_lowercase().into()
 }
 
-fn path_to_str(path: &Path) -> String {
-    path.display().to_string().to_lowercase()
+#[cfg(not(windows))]
+fn path_key(path: &Path) -> PathBuf {
+    path.to_path_buf()
 }
 
 fn clean_opened_cache_periodically() {
@@ -150,9 +162,6 @@ fn watch_fs(canon_root: PathBuf) -> Result<(), Box<dyn error::Error>> {
             }
         }
 
-        let drain = set
-            .drain()
-            .map(|x| x.strip_prefix(&canon_root).unwrap().to_path_buf());
-        FSCACHE.remove_path_changes(drain);
+        FSCACHE.remove_path_changes(set.drain());
     }
 }
-- 
2.43.0


From b4e11c85824475ae91841c7b25df9c5fb2318610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 22/25] fix: cancelling a batch which does not fail fast
 processes the rest of it

---
 ogma/src/rt/bat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma/src/rt/bat.rs b/ogma/src/rt/bat.rs
index c28e4f3..dd43c17 100644
--- a/ogma/src/rt/bat.rs
+++ b/ogma/src/rt/bat.rs
@@ -226,7 +226,7 @@ pub fn process(
             failure.flip_on();
         }
     };
-    let stop = || ff && (prog.cancelled() || failure.get());
+    let stop = || prog.cancelled() || (ff && failure.get());
 
     // process the defs (in order)
     for (idx, def) in defs {
-- 
2.43.0


From 712e8b4b95d0a0c8deca721d2d2e674c82cac134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 23/25] fix: a panic of the evaluation makes the interface wait
 for ever

---
 ogma-shell/interface/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 4d50597..c1d5743 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -691,6 +691,7 @@ where
             .builder()
             .name("ogma-shell-compute-thread".to_string())
             .spawn(|_| {
+                let donetx = donetx; // dropped if `f` panics, which ends the waiting
                 let r = f(input, tabid, cancelsw.clone());
                 donetx.send(()).ok();
                 r
-- 
2.43.0


From 509a21d3486fa1643fe2a11793b33deda0c4cf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 24/25] fix: defining a type replaced a command of the same
 name

---
 ogma/src/common/err.rs     | 13 +++++++++++++
 ogma/src/lang/defs.rs      |  3 ++-
 ogma/src/lang/impls/mod.rs | 21 +++++++++++++++++----
 ogma/src/lang/types.rs     |  8 ++++++--
 4 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/ogma/src/common/err.rs b/ogma/src/common/err.rs
index d32f325..e66ab4f 100644
--- a/ogma/src/common/err.rs
+++ b/ogma/src/common/err.rs
@@ -180,6 +180,19 @@ impl Error {
         }
     }
 
+    pub(crate) fn init_impl_clash(ty_name: &Tag, op: &str) -> Self {
+        Error {
+            cat: Category::Definitions,
+            desc: format!(
+                "can not define type `{}`, a command `{}` is already defined",
+                ty_name, op
+            ),
+            traces: trace(ty_name, format!("command `{}` already defined", op)),
+            help_msg: Some("try defining your type with a different name".into()),
+            ..Self::default()
+        }
+    }
+
     pub(crate) fn op_not_found(
         op: &Tag,
         inty: Option<&Type>,
diff --git a/ogma/src/lang/defs.rs b/ogma/src/lang/defs.rs
index 4d5d2dc..bb4f4d6 100644
--- a/ogma/src/lang/defs.rs
+++ b/ogma/src/lang/defs.rs
@@ -32,7 +32,8 @@ impl Definitions {
 
         // add in the initialisation impls for tydefs
         for x in tydefs {
-            lang::impls::add_typedef_init_impls(&mut impls, x);
+            lang::impls::add_typedef_init_impls(&mut impls, x)
+                .expect("the std types do not clash with commands");
         }
 
         let mut definitions = Self { impls, types };
diff --git a/ogma/src/lang/impls/mod.rs b/ogma/src/lang/impls/mod.rs
index 840e82c..aa393d3 100644
--- a/ogma/src/lang/impls/mod.rs
+++ b/ogma/src/lang/impls/mod.rs
@@ -320,7 +320,13 @@ pub fn usr_impl_help(def: &ast::DefinitionImpl) -> HelpMessage {
 }
 
 // ------ TypeDef Init ---------------------------------------------------------
-pub fn add_typedef_init_impls(impls: &mut Implementations, tydef: Arc<types::TypeDef>) {
+/// Add the initialisation commands of `tydef`.
+///
+/// Fails if there already is a command with the name of an initialisation command.
+pub fn add_typedef_init_impls(
+    impls: &mut Implementations,
+    tydef: Arc<types::TypeDef>,
+) -> Result<()> {
     fn insert_intrinsic(
         impls: &mut Implementations,
         op: Str,
@@ -329,7 +335,11 @@ pub fn add_typedef_init_impls(impls: &mut Implementations, tydef: Arc<types::Typ
         variant_idx: usize,
         fields: Vec<types::Field>,
         help: HelpMessage,
-    ) {
+    ) -> Result<()> {
+        if impls.0.get(&op).map_or(false, |x| x.agnostic.is_some()) {
+            return Err(Error::init_impl_clash(tydef.name(), &op));
+        }
+
         impls.insert_intrinsic(
             op,
             None,
@@ -338,6 +348,7 @@ pub fn add_typedef_init_impls(impls: &mut Implementations, tydef: Arc<types::Typ
             OperationCategory::Init,
             help,
         );
+        Ok(())
     }
 
     // TODO one issue here is the type inits do not pass info about their def location to the def
@@ -351,16 +362,18 @@ pub fn add_typedef_init_impls(impls: &mut Implementations, tydef: Arc<types::Typ
                 let op = format!("{}::{}", tydef.name(), variant.name).into();
                 let fields = variant.fields.clone().unwrap_or_default();
                 let loc = tydef.loc.clone();
-                insert_intrinsic(impls, op, loc, tydef.clone(), idx, fields, help);
+                insert_intrinsic(impls, op, loc, tydef.clone(), idx, fields, help)?;
             }
         }
         types::TypeVariant::Product(fields) => {
             let help = typedef_init_help(&tydef);
             let fields = fields.clone();
             let loc = tydef.loc.clone();
-            insert_intrinsic(impls, Str::new(tydef.name()), loc, tydef, 0, fields, help);
+            insert_intrinsic(impls, Str::new(tydef.name()), loc, tydef, 0, fields, help)?;
         }
     }
+
+    Ok(())
 }
 
 fn typedef_init(
diff --git a/ogma/src/lang/types.rs b/ogma/src/lang/types.rs
index 6c25af2..63bb39e 100644
--- a/ogma/src/lang/types.rs
+++ b/ogma/src/lang/types.rs
@@ -378,8 +378,12 @@ impl Types {
         help: Option<String>,
         impls: &mut Implementations,
     ) -> Result<()> {
-        let ty = self.insert_inner(def, loc, help)?;
-        lang::impls::add_typedef_init_impls(impls, ty);
+        // work on copies, such that a failure leaves the definitions as they are
+        let (mut new_types, mut new_impls) = (self.clone(), impls.clone());
+        let ty = new_types.insert_inner(def, loc, help)?;
+        lang::impls::add_typedef_init_impls(&mut new_impls, ty)?;
+        *self = new_types;
+        *impls = new_impls;
         Ok(())
     }
 
-- 
2.43.0


From d091c4f94d7f1fd51b6817a6cd81599c5fbc8021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 25/25] fix: defining a command with a flag name in its body
 cleared all definitions

---
 ogma/src/lang/defs.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ogma/src/lang/defs.rs b/ogma/src/lang/defs.rs
index bb4f4d6..c9c14aa 100644
--- a/ogma/src/lang/defs.rs
+++ b/ogma/src/lang/defs.rs
@@ -305,7 +305,10 @@ fn process_impl<'a>(
     help: Option<String>,
     defs: &mut Definitions,
 ) -> DefResult<'a> {
-    if s.contains("--help") {
+    // flags are given before a body, what is inside one belongs to the definition
+    let flags = s.split('{').next().unwrap_or(s);
+
+    if flags.contains("--help") {
         let help = HelpMessage {
             desc: "define a command that encapsulates an expression
 def has specialised syntax which takes variable params: ( )"
@@ -342,10 +345,10 @@ def has specialised syntax which takes variable params: ( )"
             ..HelpMessage::new("def")
         };
         Err(err::help_as_error(&help, None))
-    } else if s.contains(" --list") {
+    } else if flags.contains(" --list") {
         let post = s.split_once(" | ").map(|x| x.1);
         Ok((Value::Tab(construct_def_table(defs)), post))
-    } else if s.contains(" --clear") {
+    } else if flags.contains(" --clear") {
         defs.clear(false);
         Ok((Value::Nil, None))
     } else {
-- 
2.43.0

