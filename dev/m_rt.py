IO = "ogma/src/lang/impls/intrinsics/io.rs"; SL = "ogma-shell/lib.rs"; BA = "ogma/src/rt/bat.rs"; IM = "ogma-shell/interface/mod.rs"
def c(n, ex, f, e, *p): return (n, ex, f, e if isinstance(e, list) else [e], list(p))
CASES = [
 # containment
 c("s-ls-free", "bad", IO, ("within_root(&cx.root.join(cx.wd).join(path.as_str()), &cx)", "cx.root.join(cx.wd).join(path.as_str()).canonicalize()"), "S01"),
 c("s-noroot", "bad", IO, ("    if path.starts_with(root) {", "    if path.starts_with(root) || path.is_dir() {"), "S01"),
 c("s-plainroot", "bad", IO, ("let root = cx.root.canonicalize()?;", "let root = cx.root.to_path_buf();"), "S01"),
 c("s-nocanon", "bad", IO, ("    let path = path.canonicalize()?;\n    let root", "    let path = path.to_path_buf();\n    let root"), "S01"),
 c("s-wd", "bad", IO, ("let root = cx.root.canonicalize()?;", "let root = cx.wd.canonicalize()?;"), "S01"),
 c("s-dangling", "bad", IO, ("match path.symlink_metadata() {", "match path.metadata() {"), "S01"),
 c("s-joinall", "bad", IO, ("(Some(dir), Some(name)) => new_within_root(dir, cx).map(|x| x.join(name)),", "(Some(dir), Some(_)) => new_within_root(dir, cx).map(|x| x.join(path)),"), "S01"),
 c("s-mkdirs-first", "bad", IO, ("        scrub_new_filepath(&p, &cx)\n", "        mkdirs(cx.root.join(cx.wd).join(p.as_str())).map_err(|e| Error::io(&blktag, e))?;\n        scrub_new_filepath(&p, &cx)\n"), "S01"),
 c("s-open-raw", "bad", IO, ("                None => {\n                    let s: Str = read_file(&path).map_err(|e| Error::io(&blktag, e))?.into();\n\n                    FSCACHE", "                None => {\n                    let s: Str = read_file(cx.root.join(p.as_str())).map_err(|e| Error::io(&blktag, e))?.into();\n\n                    FSCACHE"), "S01"),
 c("s-fallback", "bad", IO, ("    within_root(&cx.root.join(cx.wd).join(path), cx)\n        .map_err(|e| io::Error::new(e.kind(), format!(\"{}: {}\", e, path)))", "    let p = cx.root.join(cx.wd).join(path);\n    within_root(&p, cx).or_else(|_| p.canonicalize())"), "S01"),
 c("s-newcmd", "bad", "ogma/src/lang/impls/intrinsics/pipeline.rs", ("        if nth >= table.rows_len().saturating_sub(1) {", "        let _ = std::fs::read(cx.root.join(\"../x\"));\n        if nth >= table.rows_len().saturating_sub(1) {"), "S01"),
 c("s-run-raw", "bad", SL, ("ogma::rt::bat::parse_file(self.root.join(path))", "ogma::rt::bat::parse_file(path)"), "S01"),
 c("s-run-unchecked", "bad", SL, ("        self.validate_path(tab_id, r)\n            .and_then(|path| ogma", "        Ok::<_, io::Error>(PathBuf::from(r))\n            .and_then(|path| ogma"), "S01"),
 c("s-cd-unchecked", "bad", SL, ("        let wd = self.validate_path(tab_id, path)?;", "        let wd = self.validate_path(tab_id, path.as_ref()).unwrap_or_else(|_| path.as_ref().to_path_buf());"), "S01"),
 c("s-cd-noprefix", "bad", SL, ("        wd.strip_prefix(&root)\n            .map_err(|_| io::Error::new(io::ErrorKind::Other, \"cannot move above root directory\"))\n            .map(|x| x.to_path_buf())", "        Ok(wd.strip_prefix(&root).map(|x| x.to_path_buf()).unwrap_or(wd))"), "S01"),
 c("ok-s-strip", "ok", IO, ("    if path.starts_with(root) {\n        Ok(path)\n    } else {\n        Err(above_root())\n    }", "    match path.strip_prefix(&root) {\n        Ok(rest) => Ok(root.join(rest)),\n        Err(_) => Err(above_root()),\n    }"), "S01"),
 c("ok-s-inline", "ok", IO, ("            let path: Str = path.resolve(|| Value::Nil, &cx)?.try_into()?;\n            within_root(&cx.root.join(cx.wd).join(path.as_str()), &cx)", "            let path: Str = path.resolve(|| Value::Nil, &cx)?.try_into()?;\n            scrub_filepath(&path, &cx)"), "S01"),
 c("ok-s-match", "ok", IO, ("        scrub_new_filepath(&p, &cx)\n            .and_then(|p| mkdirs(&p).and_then(|_| std::fs::File::create(p)))", "        let create = |p: &str| -> io::Result<std::fs::File> {\n            let p = scrub_new_filepath(p, &cx)?;\n            mkdirs(&p)?;\n            std::fs::File::create(&p)\n        };\n        create(&p)"), "S01"),
 c("ok-s-guard", "ok", IO, ("    if path.starts_with(root) {\n        Ok(path)\n    } else {\n        Err(above_root())\n    }", "    if !path.starts_with(&root) {\n        return Err(above_root());\n    }\n    Ok(path)"), "S01"),
 # batches
 c("r-revert", "bad", BA, ("let stop = || prog.cancelled() || (ff && failure.get());", "let stop = || ff && (prog.cancelled() || failure.get());"), "R01"),
 c("r-noff", "bad", BA, ("let stop = || prog.cancelled() || (ff && failure.get());", "let stop = || prog.cancelled();"), "R01"),
 c("r-par-only", "bad", BA, ("let stop = || prog.cancelled() || (ff && failure.get());", "let stop = || prog.cancelled() || (ff && !parallelise && failure.get());"), "R01"),
 c("r-once", "bad", BA, ("    for (idx, def) in defs {\n        if stop() {\n            break;\n        }\n", "    let first = stop();\n    for (idx, def) in defs {\n        if first {\n            break;\n        }\n"), "R01"),
 c("r-nonote", "bad", BA, ("        report_progress(prog, &reporter, idx, &r);\n        sw_if_fail(&r);\n        results[idx] = (r, instant.elapsed());", "        report_progress(prog, &reporter, idx, &r);\n        results[idx] = (r, instant.elapsed());"), "R01"),
 c("r-nonote2", "bad", BA, ("        sw_if_fail(&r);\n        (idx, r, instant.elapsed())", "        (idx, r, instant.elapsed())"), "R01"),
 c("r-note-wrong", "bad", BA, ("        if matches!(o, Outcome::Failed(_)) {", "        if matches!(o, Outcome::Cancelled) {"), "R01"),
 c("r-place", "bad", BA, ("        results[idx] = (r, instant.elapsed());\n    }", "        let n = results.len(); results[n - 1 - idx] = (r, instant.elapsed());\n    }"), "R01"),
 c("r-place2", "bad", BA, ("        (idx, r, instant.elapsed())", "        (idx + 0 * expr.line as usize + usize::from(parallelise), r, instant.elapsed())"), "R01"),
 c("r-success", "bad", BA, ("                if prog.cancelled() {\n                    Outcome::Cancelled\n                } else {", "                if prog.cancelled() {\n                    Outcome::Success\n                } else {"), "R01"),
 c("r-order", "bad", BA, ("    // process the defs (in order)\n", "    let _ = items.first().map(|expr| { if !stop() { let o: Outcome = rt::process_expression((), expr.code.as_str(), Location::Shell, &definitions, root, wd).into(); sw_if_fail(&o); } });\n    // process the defs (in order)\n"), "R01"),
 c("ok-r-return", "ok", BA, ("        if stop() {\n            return (\n                idx,\n                if prog.cancelled() {\n                    Outcome::Cancelled\n                } else {\n                    Outcome::Outstanding\n                },\n                instant.elapsed(),\n            );\n        }", "        if prog.cancelled() {\n            return (idx, Outcome::Cancelled, instant.elapsed());\n        }\n        if ff && failure.get() {\n            return (idx, Outcome::Outstanding, instant.elapsed());\n        }"), "R01"),
 c("ok-r-match", "ok", BA, ("        sw_if_fail(&r);\n        (idx, r, instant.elapsed())", "        if let Outcome::Failed(_) = &r {\n            failure.flip_on();\n        }\n        (idx, r, instant.elapsed())"), "R01"),
 c("ok-r-from", "ok", BA, ("        let r = rt::process_expression((), expr.code.as_str(), loc, &definitions, root, wd).into();", "        let r = rt::process_expression((), expr.code.as_str(), loc, &definitions, root, wd);\n        let r = Outcome::from(r);"), "R01"),
 c("ok-r-while", "ok", BA, ("    for (idx, def) in defs {\n        if stop() {\n            break;\n        }\n", "    let mut defs = defs.into_iter();\n    while let Some((idx, def)) = defs.next() {\n        if stop() {\n            break;\n        }\n"), "R01"),
 # waiting
 c("w-borrow", "bad", IM, ("                let donetx = donetx; // dropped if `f` panics, which ends the waiting\n", ""), "X07"),
 c("w-clone", "bad", IM, ("                let donetx = donetx; // dropped if `f` panics, which ends the waiting\n", "                let donetx = donetx.clone();\n"), "X07"),
 c("w-flag", "bad", SL, [("        let progress = ProgressTx::dummy();\n\n", "        let progress = ProgressTx::dummy();\n        let completed = Switch::off();\n        let completed_clone = completed.clone();\n"),
   ("                f(Context {\n                    root: &root,\n                    wd: &wd,\n                    progress: &progress,\n                })\n", "                let x = f(Context {\n                    root: &root,\n                    wd: &wd,\n                    progress: &progress,\n                });\n                completed_clone.flip_on();\n                x\n"),
   ("        while !thread.is_finished() {", "        while !completed.get() {")], "X07"),
 c("ok-w-loop", "ok", SL, ("        while !thread.is_finished() {\n            if cancelled.get() {\n                return;\n            }", "        loop {\n            if thread.is_finished() {\n                break;\n            }\n            if cancelled.get() {\n                return;\n            }"), "X07"),
]
