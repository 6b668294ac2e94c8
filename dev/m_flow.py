MM = "ogma/src/lang/impls/intrinsics/mod.rs"; MO = "ogma/src/lang/impls/intrinsics/morphism.rs"; PI = "ogma/src/lang/impls/intrinsics/pipeline.rs"
SL = "ogma-shell/lib.rs"; TY = "ogma/src/lang/types.rs"; DF = "ogma/src/lang/defs.rs"; FC = "ogma/src/rt/fscache.rs"; LW = "ogma-ls/workspace.rs"; LO = "ogma/src/lang/impls/intrinsics/logic.rs"
def c(n, ex, f, e, *p): return (n, ex, f, e if isinstance(e, list) else [e], list(p))
CASES = [
 # effects
 c("eff-write", "bad", MO, ("        let count = count\n            .resolve(|| table.clone(), &cx)", "        std::fs::write(\"/tmp/x\", \"y\").ok();\n        let count = count\n            .resolve(|| table.clone(), &cx)"), "X01"),
 c("eff-helper", "bad", MM, ("fn cnv_num_to_uint<T", "fn note() { let _ = std::fs::metadata(\"a\").map(|m| m.len()); std::env::set_current_dir(\"/\").ok(); }\nfn cnv_num_to_uint<T"), "X01") if 0 else
 c("eff-cwd", "bad", MM, ("    let err = |n: &dyn std::fmt::Display| {", "    std::env::set_current_dir(\"/\").ok();\n    let err = |n: &dyn std::fmt::Display| {"), "X01"),
 c("eff-dbg", "bad", DF, ("        let mut count = 0;", "        let mut count = 0;\n        dbg!(items.types.len());"), "X01"),
 c("eff-print", "bad", TY, ("        let i = self.cached_col_indices.lock().get(col_header).copied();", "        let i = self.cached_col_indices.lock().get(col_header).copied();\n        println!(\"{:?}\", i);"), "X01"),
 c("eff-rand", "bad", PI, ("        if nth >= table.rows_len().saturating_sub(1) {", "        if nth >= table.rows_len().saturating_sub(1) || fastrand::f64() > 2.0 {"), "X01"),
 c("eff-exit", "bad", PI, ("        if nth >= table.rows_len().saturating_sub(1) {", "        if table.rows_len() > 1_000_000_000 { std::process::exit(3) }\n        if nth >= table.rows_len().saturating_sub(1) {"), "X01"),
 # locks
 c("lock-again", "bad", SL, ("            // writing an error with help reads the definitions again\n            drop(defs);\n", ""), "X02"),
 c("lock-row", "bad", TY, ("        let i = self.cached_col_indices.lock().get(col_header).copied();\n        match i {", "        let m = self.cached_col_indices.lock();\n        let i = m.get(col_header).copied();\n        match i {"), "X02"),
 c("lock-row2", "bad", TY, ("        let i = self.cached_col_indices.lock().get(col_header).copied();\n        match i {", "        match self.cached_col_indices.lock().get(col_header).copied() {"), "X02"),
 # unfinished
 c("unf-todo", "bad", PI, ("        if nth >= table.rows_len().saturating_sub(1) {", "        if nth == 7 { todo!() }\n        if nth >= table.rows_len().saturating_sub(1) {"), "X03"),
 c("unf-unimpl", "bad", DF, ("        Err(unsupported(\"--list\"))", "        unimplemented!(\"listing\")"), "X03"),
 c("unf-dead", "ok", DF, ("fn process_ty<'a>(", "fn later() { todo!() }\nfn process_ty<'a>("), "X03"),
 # determinism
 c("det-any", "bad", MM, ("        .find_map_first(|e| e)", "        .find_map_any(|e| e)"), "X04"),
 c("det-mutex", "bad", MM, [("    buf.par_iter_mut()\n        .enumerate()\n        .skip(1)\n        .map_init(", "    let err = crate::Mutex::new(None);\n    buf.par_iter_mut()\n        .enumerate()\n        .skip(1)\n        .for_each_init("),
   ("                f(x, cx, trow).err()", "                if let Err(e) = f(x, cx, trow) { *err.lock() = Some(e); }"), ("        .find_map_first(|e| e)\n        .map_or(Ok(()), Err)", "        ;\n    err.into_inner().map_or(Ok(()), Err)")], "X04"),
 c("det-collect", "bad", MO, ("            .err()\n        });", "            .err()\n        });\n    let _ = to_append.par_iter().map(|v| if v.is_empty() { Err(()) } else { Ok(v.len()) }).collect::<std::result::Result<Vec<_>, ()>>();"), "X04"),
 c("det-random", "bad", MO, ("let indices: HashSet<_> =", "let indices: std::collections::HashSet<_> ="), "X04"),
 c("det-count-ok", "ok", MO, ("keep.par_iter().filter(|&&x| x).count()", "keep.iter().filter(|&&x| x).count()"), "X04"),
 c("det-atomic", "bad", MO, [("        let mut keep = vec![true; table.rows_len()];\n        let predicate = self.expr_predicate.resolver_sync(cx);\n        par_over", "        let mut keep = vec![true; table.rows_len()];\n        let seen = std::sync::atomic::AtomicUsize::new(0);\n        let predicate = self.expr_predicate.resolver_sync(cx);\n        par_over"),
   ("                .map(|x| *k = x)\n        })?;", "                .map(|x| *k = x && seen.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < 1000)\n        })?;")], "X04"),
 # values
 c("val-ptreq", "bad", TY, ("        self.idx == other.idx && self.table == other.table", "        self.idx == other.idx && self.table == other.table && Arc::ptr_eq(&self.cached_col_indices, &other.cached_col_indices)"), "X05"),
 c("val-cell", "bad", TY, ("    /// Row index.\n    pub idx: usize,", "    /// Row index.\n    pub idx: usize,\n    pub hits: Arc<Mutex<usize>>,"), "X05") if 0 else
 c("val-unsafe", "bad", TY, ("            .expect(\"trying to access entry outside table bounds\")", "            .map(|x| unsafe { &*(x as *const Entry<Value>) }).expect(\"trying to access entry outside table bounds\")"), "X05"),
 c("val-cache-wrong", "bad", TY, ("                    .insert(col_header.into(), idx);", "                    .insert(col_header.into(), self.idx);"), "X05"),
 c("val-cache-shared", "bad", PI, ("TableRow::new(table, Default::default(), nth + 1)", "TableRow::new(table, GLOBAL.clone(), nth + 1)"), "X05") if 0 else
 c("val-match", "ok", TY, ("        match i {\n            Some(i) => Ok(i),\n            None => Self::col_idx(&self.table, col_header, tag).map(|idx| {\n                self.cached_col_indices\n                    .lock()\n                    .insert(col_header.into(), idx);\n                idx\n            }),\n        }",
   "        if let Some(i) = i { return Ok(i); }\n        let idx = Self::col_idx(&self.table, col_header, tag)?;\n        self.cached_col_indices.lock().insert(col_header.into(), idx);\n        Ok(idx)"), "X05", "X02", "X04"),
 # numbers
 c("num-nth", "bad", PI, ("nth >= table.rows_len().saturating_sub(1)", "nth + 1 >= table.rows_len()"), "X06"),
 c("num-skip", "bad", MO, (".chain(table.rows().skip(1).skip(count))", ".chain(table.rows().skip(count + 1))"), "X06"),
 c("num-take", "bad", MO, ("t.retain_rows(|i, _| i == 0 || i <= count);", "let last = count + 1; t.retain_rows(|i, _| i == 0 || i < last);"), "X06"),
 c("num-closure", "bad", MO, ("t.retain_rows(|i, _| i == 0 || i <= count);", "t.retain_rows(|i, _| i < count + 1);"), "X06"),
 c("num-as", "bad", MO, ("t.retain_rows(|i, _| i == 0 || i <= count);", "t.retain_rows(|i, _| i == 0 || (i as u32) <= (count as u32));"), "X06"),
 c("num-cap", "bad", PI, ("        if nth >= table.rows_len().saturating_sub(1) {", "        let _v: Vec<u8> = Vec::with_capacity(nth);\n        if nth >= table.rows_len().saturating_sub(1) {"), "X06"),
 c("num-checked", "ok", PI, [("nth >= table.rows_len().saturating_sub(1)", "nth.checked_add(1).map_or(true, |n| n >= table.rows_len())"), ("let trow = TableRow::new(table, Default::default(), nth + 1);", "let trow = TableRow::new(table, Default::default(), nth.saturating_add(1));")], "X06"),
 c("num-sat", "ok", PI, ("nth >= table.rows_len().saturating_sub(1)", "nth.saturating_add(1) >= table.rows_len()"), "X06"),
 c("num-index", "bad", MO, ("        if rowidx >= table.rows_len() {\n            return Err(Error::row_out_of_bounds(rowidx, &row_idx.tag));\n        }", "        let rowidx: usize = rowidx; let all: Vec<usize> = (0..table.rows_len()).collect();\n        let rowidx: usize = all[rowidx];"), "X06"),
]
