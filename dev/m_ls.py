SM = "ogma-ls/server/mod.rs"; WS = "ogma-ls/workspace.rs"; FM = "ogma-ls/server/file_mgmt.rs"; LB = "ogma-ls/lib.rs"
def c(n, ex, f, e, *p): return (n, ex, f, e if isinstance(e, list) else [e], list(p))
NOTIFY = "            f.call(notif.params);\n"
ELSE = "                result: None,\n                error: Some(err.into()),\n            };\n            self.tx.send(resp.into()).ok();"
CASES = [
 # replies
 c("l3-silent", "bad", SM, (ELSE, ELSE.replace("self.tx.send(resp.into()).ok();", "let _ = resp;")), "L03"),
 c("l3-onlyok", "bad", SM, ("                tx.send(resp.into()).ok();", "                if resp.error.is_none() { tx.send(resp.into()).ok(); }"), "L03"),
 c("l3-twice", "bad", SM, ("                tx.send(resp.into()).ok();", "                if resp.error.is_some() { tx.send(resp.clone().into()).ok(); }\n                tx.send(resp.into()).ok();"), "L03"),
 c("l3-both", "bad", SM, ("                        result: None,\n                        error: Some(err.into()),", "                        result: Some(Value::Null),\n                        error: Some(err.into()),"), "L03"),
 c("l3-swallow", "bad", SM, ("                        result: None,\n                        error: Some(err.into()),", "                        result: Some(Value::Null),\n                        error: { let _ = err; None },"), "L03"),
 c("l3-code", "bad", SM, ("ErrorCode::MethodNotFound => -32601,", "ErrorCode::MethodNotFound => -32602,"), "L03"),
 c("l3-code2", "bad", SM, ("ErrorCode::InvalidParams => -32602,", "ErrorCode::InvalidParams => -32603,"), "L03"),
 c("l3-kind", "bad", SM, ("                    code: ErrorCode::InvalidParams,", "                    code: ErrorCode::InternalError,"), "L03"),
 c("l3-method", "bad", SM, ("self.request_handlers.get(req.method.as_str())", "self.request_handlers.get(req.method.trim_start_matches('$'))"), "L03"),
 c("l3-params", "bad", SM, ("match f.call(req.params) {", "match f.call(if req.params.is_null() { Value::Bool(true) } else { req.params }) {"), "L03"),
 c("l3-drop", "bad", SM, ("                Message::Request(req) => self.handle_req(req),", "                Message::Request(req) if req.method.starts_with(\"$/\") => debug!(\"ignored {}\", req.method),\n                Message::Request(req) => self.handle_req(req),"), "L03"),
 c("l3-replynotif", "bad", SM, ("            debug!(\"notification not registered: '{}'\", notif.method);", "            let id = serde_json_id();\n            self.tx.send(Response { id, result: None, error: None }.into()).ok();"), "L03") if 0 else
 c("l3-double-call", "bad", SM, ("                let resp = match f.call(req.params) {", "                let _ = f.call(req.params.clone());\n                let resp = match f.call(req.params) {"), "L03"),
 c("ok-l3-helper", "ok", SM, [("            self.tx.send(resp.into()).ok();\n        }\n    }\n\n    fn handle_notification", "            Self::reply(&self.tx, resp);\n        }\n    }\n\n    fn reply(tx: &Tx, resp: Response) {\n        if tx.send(Message::Response(resp)).is_err() {\n            debug!(\"client has gone\");\n        }\n    }\n\n    fn handle_notification"), ("                tx.send(resp.into()).ok();", "                Self::reply(&tx, resp);")], "L03", "L02"),
 c("ok-l3-recv", "ok", SM, ("        for msg in &self.rx {", "        while let Ok(msg) = self.rx.recv() {"), "L03", "L02"),
 c("ok-l3-match", "ok", SM, ("                let resp = match f.call(req.params) {\n                    Ok(result) => Response {\n                        id: req.id,\n                        result: Some(result),\n                        error: None,\n                    },\n                    Err(err) => Response {\n                        id: req.id,\n                        result: None,\n                        error: Some(err.into()),\n                    },\n                };", "                let (result, error) = match f.call(req.params) {\n                    Ok(result) => (Some(result), None),\n                    Err(err) => (None, Some(err.into())),\n                };\n                let resp = Response { id: req.id.clone(), result, error };"), "L03"),
 c("ok-l3-thread", "ok", SM, ("            rayon::spawn(move || {", "            std::thread::spawn(move || {"), "L03"),
 c("ok-l3-inline", "ok", SM, [("            let tx = self.tx.clone();\n            let f = Arc::clone(f);\n            rayon::spawn(move || {", "            let tx = &self.tx;\n            {"), ("                tx.send(resp.into()).ok();\n            });", "                tx.send(resp.into()).ok();\n            }")], "L03"),
 # documents
 c("l2-spawn", "bad", SM, (NOTIFY, "            let f = Arc::clone(f);\n            rayon::spawn(move || f.call(notif.params));\n"), "L02"),
 c("l2-thread", "bad", SM, (NOTIFY, "            let f = Arc::clone(f);\n            std::thread::spawn(move || f.call(notif.params));\n"), "L02"),
 c("l2-skip", "bad", SM, (NOTIFY, "            if !self.tx.is_full() { f.call(notif.params); }\n"), "L02"),
 c("l2-gap", "bad", WS, ("        if version < self.version {", "        if version != self.version + 1 {"), "L02"),
 c("l2-stale", "bad", WS, ("        if version < self.version {\n            return;\n        }\n\n        self.version = version;", "        self.version = self.version.max(version);"), "L02"),
 c("l2-nover", "bad", WS, ("        self.version = version;\n        apply_changes", "        apply_changes"), "L02"),
 c("l2-rev", "bad", WS, ("    for chg in chgs {", "    for chg in chgs.iter().rev() {"), "L02"),
 c("l2-skipempty", "bad", WS, ("    for chg in chgs {\n", "    for chg in chgs {\n        if chg.text.is_empty() { continue; }\n"), "L02"),
 c("l2-first", "bad", WS, ("        text.replace_range(range, &chg.text);\n", "        text.replace_range(range, &chg.text);\n        if chg.range.is_none() { break; }\n"), "L02"),
 c("l2-orig", "bad", WS, ("    for chg in chgs {\n        let range = chg\n            .range\n            .map(|r| lsp_range_to_range(text, r))", "    let before = text.clone();\n    for chg in chgs {\n        let range = chg\n            .range\n            .map(|r| lsp_range_to_range(&before, r))"), "L02"),
 c("l2-append", "bad", WS, ("            .unwrap_or(0..text.len());", "            .unwrap_or(text.len()..text.len());"), "L02"),
 c("l2-wronguri", "bad", FM, ("            .add_file_changes(&uri, version, params.content_changes);", "            .add_file_changes(&uri.join(\".\").unwrap_or(uri.clone()), version, params.content_changes);"), "L02") if 0 else
 c("l2-openver", "bad", FM, ("let file = File::new(text, version);", "let file = File::new(text, 0 * version);"), "L02"),
 c("l2-keep", "bad", WS, ("        self.files.write().insert(url, file);", "        self.files.write().entry(url).or_insert(file);"), "L02"),
 c("ok-l2-match", "ok", WS, ("        let range = chg\n            .range\n            .map(|r| lsp_range_to_range(text, r))\n            .unwrap_or(0..text.len());", "        let range = match chg.range {\n            Some(r) => lsp_range_to_range(text, r),\n            None => 0..text.len(),\n        };"), "L02"),
 c("ok-l2-if", "ok", WS, ("        if version < self.version {\n            return;\n        }\n\n        self.version = version;\n        apply_changes(&mut self.text, &changes);", "        if version >= self.version {\n            apply_changes(&mut self.text, &changes);\n            self.version = version;\n        }"), "L02"),
 c("ok-l2-inline", "ok", WS, ("        apply_changes(&mut self.text, &changes);", "        for chg in changes.iter() {\n            let range = match chg.range {\n                Some(r) => lsp_range_to_range(&self.text, r),\n                None => 0..self.text.len(),\n            };\n            self.text.replace_range(range, &chg.text);\n        }"), "L02"),
 c("ok-l2-strict", "ok", WS, ("        if version < self.version {", "        if version <= self.version {"), "L02"),
 c("ok-l2-full", "ok", WS, ("        let range = chg\n            .range\n            .map(|r| lsp_range_to_range(text, r))\n            .unwrap_or(0..text.len());\n        text.replace_range(range, &chg.text);", "        match chg.range {\n            Some(r) => { let r = lsp_range_to_range(text, r); text.replace_range(r, &chg.text) }\n            None => text.replace_range(.., &chg.text),\n        }"), "L02"),
 # positions
 c("l1-late", "bad", LB, ("        if co_utf16 >= chpos {\n            break;\n        }\n\n        co_utf8 += ch.len_utf8();\n        co_utf16 += ch.len_utf16();", "        co_utf8 += ch.len_utf8();\n        co_utf16 += ch.len_utf16();\n        if co_utf16 > chpos {\n            break;\n        }"), "L01"),
 c("l1-one", "bad", LB, ("co_utf16 += ch.len_utf16();", "co_utf16 += 1; let _ = ch;"), "L01"),
 c("l1-swap", "bad", LB, ("co_utf8 += ch.len_utf8();", "co_utf8 += ch.len_utf16();"), "L01"),
 c("l1-eq", "bad", LB, ("        if co_utf16 >= chpos {", "        if co_utf16 == chpos {"), "L01"),
 c("l1-gt", "bad", LB, ("        if co_utf16 >= chpos {", "        if co_utf16 > chpos {"), "L01"),
 c("l1-end", "bad", LB, ("        None => s.len(),", "        None => 0,"), "L01"),
 c("l1-line", "bad", LB, ("s.lines().nth(posline)", "s.lines().nth(posline.saturating_sub(1))"), "L01"),
 c("l1-start", "bad", LB, ("            line_offset + ch_offset", "            line_offset.max(ch_offset)"), "L01"),
 c("l1-order", "bad", LB, ("    start..std::cmp::max(start, end)", "    start..end"), "L01"),
 c("l1-min", "bad", LB, ("    start..std::cmp::max(start, end)", "    std::cmp::min(start, end)..end"), "L01"),
 c("l1-whole", "bad", LB, ("linech_to_idx(line, posch)", "linech_to_idx(&s[line_offset..], posch)"), "L01"),
 c("ok-l1-while", "ok", LB, ("    for ch in line.chars() {\n        if co_utf16 >= chpos {\n            break;\n        }\n", "    let mut chars = line.chars();\n    while co_utf16 < chpos {\n        let ch = match chars.next() {\n            Some(ch) => ch,\n            None => break,\n        };\n"), "L01"),
 c("ok-l1-idx", "ok", LB, ("    let mut co_utf16 = 0;\n    let mut co_utf8 = 0;\n    for ch in line.chars() {\n        if co_utf16 >= chpos {\n            break;\n        }\n\n        co_utf8 += ch.len_utf8();\n        co_utf16 += ch.len_utf16();\n    }\n\n    co_utf8\n", "    let mut co_utf16 = 0;\n    for (idx, ch) in line.char_indices() {\n        if co_utf16 >= chpos {\n            return idx;\n        }\n        co_utf16 += ch.len_utf16();\n    }\n    line.len()\n"), "L01"),
 c("ok-l1-after", "ok", LB, ("        if co_utf16 >= chpos {\n            break;\n        }\n\n        co_utf8 += ch.len_utf8();\n        co_utf16 += ch.len_utf16();", "        if chpos <= co_utf16 {\n            return co_utf8;\n        }\n\n        co_utf16 += ch.len_utf16();\n        co_utf8 += ch.len_utf8();"), "L01"),
 c("ok-l1-if", "ok", LB, ("    start..std::cmp::max(start, end)", "    if end < start { start..start } else { start..end }"), "L01"),
 c("ok-l1-let", "ok", LB, ("        None => s.len(),\n    }\n}\n\nfn lsp", "        None => {\n            let end = s.len();\n            end\n        }\n    }\n}\n\nfn lsp"), "L01"),
]
