F="ogma-shell/interface/completions.rs"; Q=["C01"]; V=["C02"]; H=["C03"]; G=["C04"]
rq='''        let input = input_buf.buffer(..);
        let cursor_pos = input_buf.buf_pos();
        let word_pos = word_start(&input, cursor_pos);
        self.replace = input[word_pos..cursor_pos].to_string();
        self.ins_len = self.replace.chars().count();
        self.start_pos = input_buf.ch_pos().saturating_sub(self.ins_len);
'''
ws='''    let spliton = " \\t\\r\\n./\\\\";
    let mut pos = 0;
    for (idx, ch) in s.char_indices() {
        if idx > before {
            break;
        }

        if spliton.contains(ch) {
            pos = idx + ch.len_utf8();
        }
    }

    std::cmp::min(pos, before) // ensure pos is always less than or eq before
'''
rv='''        let mut has = false;
        let chgset = self.changeset;
        for pkg in self.rx.try_iter().filter(|x| x.changeset == chgset) {
            has |= true;
            self.items.extend(pkg.items);
        }

        has
'''
hn='''        let l = Some(self.items.len().saturating_sub(1));
        self.highlighted = if l == self.highlighted {
            None
        } else if let Some(i) = self.highlighted {
            Some(i + 1)
        } else {
            Some(0)
        };
        self.replace_with()
'''
hp='''        self.highlighted = match self.highlighted {
            Some(0) => None,
            Some(x) => Some(x.saturating_sub(1)),
            None => Some(self.items.len().saturating_sub(1)),
        };
        self.replace_with()
'''
rw='''        let len = self.ins_len; // copy prev len
        self.ins_len = self.cmpl().unwrap_or(&self.replace).chars().count();
        let with = self.cmpl().unwrap_or(&self.replace);
        (len, with)
'''
eng='''    while let Ok(req) = rx.recv() {
        if rx.is_empty() {
            let req = Arc::new(req);
            for tx in &senders {
                tx.send(req.clone()).ok();
            }
        }
    }
'''
lc='''        let mut items = completer.complete(input, *cursor_pos, *word_pos);
        // we do some cleaning of the items here to avoid massive completion lists.
        items.truncate(CMPL_ITEMS_LIM);
        if !items.is_empty() {
            let pkg = Package {
                changeset: *changeset,
                items,
            };
            tx.send(pkg).ok();
        }
'''
lh='''        let Request {
            changeset,
            input,
            cursor_pos,
            word_pos,
        } = &*req;
'''
sp='''    let mut senders = Vec::with_capacity(completers.len());
    for cmpltr in completers {
        let (txx, rxx) = unbounded();
        senders.push(txx);
        let tx = tx.clone();
        std::thread::Builder::new()
            .name("completion-engine-looper".into())
            .spawn(|| loop_completer(rxx, tx, cmpltr))
            .unwrap();
    }
'''
CASES=[
 # --- request: refactorings
 ("ok-rq-order","ok",F,[(rq,'''        let cursor_pos = input_buf.buf_pos();
        let input = input_buf.buffer(..);
        let word_pos = word_start(input.as_str(), cursor_pos);
        let word = &input[word_pos..cursor_pos];
        self.ins_len = word.chars().count();
        self.start_pos = input_buf.ch_pos() - self.ins_len;
        self.replace = String::from(word);
''')],Q),
 ("ok-rq-helper","ok",F,[(rq,'''        let (input, cursor_pos, word_pos) = self.take_word(input_buf);
'''),("    /// Returns if there were",'''    fn take_word(&mut self, input_buf: &InputBuffer) -> (String, usize, usize) {
        let input = input_buf.buffer(..);
        let cursor_pos = input_buf.buf_pos();
        let word_pos = word_start(&input, cursor_pos);
        let word = input[word_pos..cursor_pos].to_owned();
        let n = word.chars().count();
        self.replace = word;
        self.ins_len = n;
        self.start_pos = input_buf.ch_pos().saturating_sub(n);
        (input, cursor_pos, word_pos)
    }

    /// Returns if there were''')],Q),
 ("ok-rq-inline-reset","ok",F,[("        self.reset();\n","        self.items = Vec::new();\n        self.highlighted = None;\n")],Q),
 ("ok-rq-discard","ok",F,[("        self.tx.send(req).ok();","        let _ = self.tx.send(req);")],Q),
 ("ok-rq-iflet","ok",F,[("        self.tx.send(req).ok();","        if let Err(_e) = self.tx.send(req) { /* engine gone */ }")],Q),
 ("ok-ws-rev","ok",F,[(ws,'''    let pos = s.char_indices().rev().find(|&(i, c)| i <= before && " \\t\\r\\n./\\\\".contains(c)).map(|(i, c)| i + c.len_utf8()).unwrap_or(0);
    pos.min(before)
''')],Q),
 ("ok-ws-take","ok",F,[(ws,'''    let spliton = " \\t\\r\\n./\\\\";
    let mut pos = 0;
    for (idx, ch) in s.char_indices().take_while(|(i, _)| *i <= before) {
        if spliton.contains(ch) { pos = idx + ch.len_utf8(); }
    }
    pos.min(before)
''')],Q),
 ("ok-ws-fold","ok",F,[(ws,'''    let is_split = |c: char| matches!(c, ' ' | '\\t' | '\\r' | '\\n' | '.' | '/' | '\\\\');
    s.char_indices()
        .take_while(|x| x.0 <= before)
        .filter(|x| is_split(x.1))
        .map(|(i, c)| i + c.len_utf8())
        .last()
        .unwrap_or(0)
        .min(before)
''')],Q),
 ("ok-ws-continue","ok",F,[(ws,'''    let mut pos = 0;
    for (idx, ch) in s.char_indices() {
        if idx > before { break; }
        match ch {
            ' ' | '\\t' | '\\r' | '\\n' | '.' | '/' | '\\\\' => pos = idx + 1,
            _ => continue,
        }
    }
    if pos > before { before } else { pos }
''')],Q),
 ("ok-ws-while","ok",F,[(ws,'''    let mut it = s.char_indices();
    let mut pos = 0;
    while let Some((idx, ch)) = it.next() {
        if idx > before { return std::cmp::min(pos, before); }
        if " \\t\\r\\n./\\\\".contains(ch) { pos = idx + ch.len_utf8(); }
    }
    std::cmp::min(pos, before)
''')],Q),
 # --- request: bugs
 ("rq-wrong-cursor","bad",F,[("let cursor_pos = input_buf.buf_pos();","let cursor_pos = input_buf.ch_pos();")],Q),
 ("rq-start-bytes","bad",F,[("self.start_pos = input_buf.ch_pos().saturating_sub(self.ins_len);","self.start_pos = word_pos;")],Q),
 ("rq-len-bytes","bad",F,[("self.ins_len = self.replace.chars().count();\n        self.start","self.ins_len = self.replace.len();\n        self.start")],Q),
 ("rq-no-bump","bad",F,[("self.changeset = self.changeset.wrapping_add(1);","")],Q),
 ("rq-bump-conditional","bad",F,[("self.changeset = self.changeset.wrapping_add(1);","if !self.items.is_empty() { self.changeset = self.changeset.wrapping_add(1); }")],Q),
 ("rq-bump-after","bad",F,[("        self.changeset = self.changeset.wrapping_add(1);\n",""),("        self.tx.send(req).ok();","        self.tx.send(req).ok();\n        self.changeset = self.changeset.wrapping_add(1);")],Q+V),
 ("rq-no-reset","bad",F,[("        self.reset();\n","        self.items.clear();\n")],Q),
 ("rq-skip-empty","bad",F,[("        self.tx.send(req).ok();","        if req.cursor_pos > 0 { self.tx.send(req).ok(); }")],Q),
 ("rq-trim","bad",F,[("            input,\n            cursor_pos,\n            word_pos,\n        };","            input: input.trim_end().to_string(),\n            cursor_pos,\n            word_pos,\n        };")],Q),
 ("rq-word-empty","bad",F,[("            word_pos,\n        };","            word_pos: cursor_pos,\n        };")],Q),
 ("ws-ge","bad",F,[("if idx > before {","if idx >= before {")],Q),
 ("ws-no-dot","bad",F,[('" \\t\\r\\n./\\\\"','" \\t\\r\\n/\\\\"')],Q),
 ("ws-more","bad",F,[('" \\t\\r\\n./\\\\"','" \\t\\r\\n./\\\\-"')],Q),
 ("ws-whitespace","bad",F,[("if spliton.contains(ch)","if spliton.contains(ch) || ch.is_whitespace()")],Q),
 ("ws-first","bad",F,[("pos = idx + ch.len_utf8();","pos = idx + ch.len_utf8(); break;")],Q),
 # --- recv: refactorings
 ("ok-rv-while","ok",F,[(rv,'''        let mut has = false;
        while let Ok(pkg) = self.rx.try_recv() {
            if pkg.changeset != self.changeset { continue; }
            has = true;
            self.items.extend(pkg.items);
        }
        has
''')],V),
 ("ok-rv-for-if","ok",F,[(rv,'''        let mut has = false;
        for pkg in self.rx.try_iter() {
            if pkg.changeset == self.changeset {
                has = true;
                for item in pkg.items { self.items.push(item); }
            }
        }
        has
''')],V),
 ("ok-rv-collect","ok",F,[(rv,'''        let chgset = self.changeset;
        let fresh: Vec<Package> = self.rx.try_iter().filter(|p| p.changeset == chgset).collect();
        let has = !fresh.is_empty();
        self.items.extend(fresh.into_iter().flat_map(|p| p.items));
        has
''')],V),
 ("ok-rv-append","ok",F,[(rv,'''        let mut has = false;
        let chgset = self.changeset;
        while let Ok(mut pkg) = self.rx.try_recv() {
            if pkg.changeset == chgset { self.items.append(&mut pkg.items); has = true; }
        }
        has
''')],V),
 ("ok-rv-loop","ok",F,[(rv,'''        let mut n = 0usize;
        loop {
            match self.rx.try_recv() {
                Ok(pkg) if pkg.changeset == self.changeset => { n = n.saturating_add(1); self.items.extend(pkg.items); }
                Ok(_) => (),
                Err(_) => break,
            }
        }
        n > 0
''')],V),
 ("ok-rv-helper","ok",F,[(rv,'''        let mut has = false;
        while let Ok(pkg) = self.rx.try_recv() { has |= self.accept(pkg); }
        has
    }

    fn accept(&mut self, pkg: Package) -> bool {
        let fresh = pkg.changeset == self.changeset;
        if fresh { self.items.extend(pkg.items); }
        fresh
''')],V),
 ("ok-rv-count","ok",F,[(rv,'''        let Self { rx, items, changeset, .. } = self;
        rx.try_iter().filter(|p| p.changeset == *changeset).map(|p| items.extend(p.items)).count() > 0
''')],V),
 ("ok-rv-foreach","ok",F,[(rv,'''        let chgset = self.changeset;
        let items = &mut self.items;
        let mut has = false;
        self.rx.try_iter().filter(|p| p.changeset == chgset).for_each(|p| { has = true; items.extend(p.items); });
        has
''')],V),
 # --- recv: bugs
 ("rv-ge","bad",F,[("x.changeset == chgset","x.changeset <= chgset")],V),
 ("rv-takewhile","bad",F,[(".try_iter().filter(",".try_iter().take_while(")],V),
 ("rv-has-items","bad",F,[("        has\n    }\n\n    pub fn reset","        self.has()\n    }\n\n    pub fn reset")],V),
 ("rv-blocking","bad",F,[("self.rx.try_iter()","self.rx.iter()")],V),
 ("rv-first-only","bad",F,[("            self.items.extend(pkg.items);\n        }","            self.items.extend(pkg.items);\n            break;\n        }")],V),
 ("rv-replace","bad",F,[("            self.items.extend(pkg.items);","            self.items = pkg.items;")],V),
 ("rv-front","bad",F,[("            self.items.extend(pkg.items);","            let mut v = pkg.items; v.append(&mut self.items); self.items = v;")],V),
 ("rv-reset-hl","bad",F,[("            has |= true;","            has |= true;\n            self.highlighted = None;")],V+H),
 ("rv-low-bits","bad",F,[("x.changeset == chgset","x.changeset as u8 == chgset as u8")],V),
 ("rv-cap","bad",F,[("        has\n    }\n\n    pub fn reset","        self.items.truncate(50);\n        has\n    }\n\n    pub fn reset")],V),
 # --- highlight: refactorings
 ("ok-hn-match","ok",F,[(hn,'''        let last = self.items.len().saturating_sub(1);
        self.highlighted = match self.highlighted {
            Some(i) if i == last => None,
            Some(i) => Some(i + 1),
            None => Some(0),
        };
        self.replace_with()
''')],H),
 ("ok-hn-filter","ok",F,[(hn,'''        let n = self.items.len().max(1);
        self.highlighted = Some(self.highlighted.map_or(0, |i| i + 1)).filter(|i| *i < n);
        self.replace_with()
''')],H),
 ("ok-hn-early","ok",F,[(hn,'''        if self.items.is_empty() { self.highlighted = None; return self.replace_with(); }
        let next = match self.highlighted { None => 0, Some(i) => i + 1 };
        self.highlighted = if next < self.items.len() { Some(next) } else { None };
        self.replace_with()
''')],H),
 ("ok-hp-checked","ok",F,[(hp,'''        self.highlighted = match self.highlighted {
            Some(i) => i.checked_sub(1),
            None => Some(self.items.len().saturating_sub(1)),
        };
        self.replace_with()
''')],H),
 ("ok-hp-if","ok",F,[(hp,'''        self.highlighted = if let Some(i) = self.highlighted {
            if i == 0 { None } else { Some(i - 1) }
        } else {
            self.items.len().checked_sub(1)
        };
        self.replace_with()
''')],H),
 ("ok-rw-match","ok",F,[(rw,'''        let len = self.ins_len;
        let text = match self.highlighted {
            Some(i) if i < self.items.len() => self.items[i].value.as_str(),
            _ => self.replace.as_str(),
        };
        self.ins_len = text.chars().count();
        (len, text)
''')],H),
 ("ok-rw-replace","ok",F,[(rw,'''        let new_len = self.cmpl().unwrap_or(self.replace.as_str()).chars().count();
        let old = std::mem::replace(&mut self.ins_len, new_len);
        (old, self.cmpl().unwrap_or(&self.replace))
''')],H),
 # --- highlight: bugs
 ("hn-off","bad",F,[("self.items.len().saturating_sub(1));\n        self.highlighted = if l","self.items.len());\n        self.highlighted = if l")],H),
 ("hn-wrap-first","bad",F,[("        self.highlighted = if l == self.highlighted {\n            None","        self.highlighted = if l == self.highlighted {\n            Some(0)")],H),
 ("hp-first-wraps","bad",F,[("Some(0) => None,","Some(0) => Some(self.items.len().saturating_sub(1)),")],H),
 ("hp-none-first","bad",F,[("None => Some(self.items.len().saturating_sub(1)),","None => Some(0),")],H),
 ("rw-bytes","bad",F,[("self.ins_len = self.cmpl().unwrap_or(&self.replace).chars().count();","self.ins_len = self.cmpl().unwrap_or(&self.replace).len();")],H),
 ("rw-newlen","bad",F,[("        (len, with)","        (with.chars().count().max(len), with)")],H),
 ("rw-empty","bad",F,[("        let with = self.cmpl().unwrap_or(&self.replace);","        let with = self.cmpl().filter(|s| !s.is_empty()).unwrap_or(&self.replace);")],H),
 ("rw-keep","bad",F,[("self.ins_len = self.cmpl().unwrap_or(&self.replace).chars().count();","self.ins_len = self.cmpl().map_or(self.ins_len, |s| s.chars().count());")],H),
 ("rs-no-hl","bad",F,[("        self.items.clear();\n        self.highlighted = None;\n","        self.items.clear();\n")],Q+V+H),
 # --- engine: refactorings
 ("ok-en-drain","ok",F,[(eng,'''    while let Ok(mut req) = rx.recv() {
        while let Ok(newer) = rx.try_recv() { req = newer; }
        let req = Arc::new(req);
        for tx in &senders { tx.send(Arc::clone(&req)).ok(); }
    }
''')],G),
 ("ok-en-iter","ok",F,[(eng,'''    for req in rx.iter() {
        if !rx.is_empty() { continue; }
        let req = Arc::new(req);
        senders.iter().for_each(|tx| { let _ = tx.send(Arc::clone(&req)); });
    }
''')],G),
 ("ok-en-loop","ok",F,[(eng,'''    loop {
        let req = match rx.recv() { Ok(r) => r, Err(_) => break };
        if !rx.is_empty() { continue; }
        broadcast(&senders, Arc::new(req));
    }
'''),("fn loop_completer(",'''fn broadcast(senders: &[Sender<Arc<Request>>], req: Arc<Request>) {
    for s in senders { s.send(Arc::clone(&req)).ok(); }
}

fn loop_completer(''')],G),
 ("ok-en-last","ok",F,[(eng,'''    while let Ok(req) = rx.recv() {
        let req = rx.try_iter().last().unwrap_or(req);
        let req = Arc::new(req);
        for tx in senders.iter() { tx.send(req.clone()).ok(); }
    }
''')],G),
 ("ok-lc-take","ok",F,[(lc,'''        let items: Vec<Completion> = completer.complete(input, *cursor_pos, *word_pos).into_iter().take(CMPL_ITEMS_LIM).collect();
        if items.is_empty() { continue; }
        let _ = tx.send(Package { changeset: *changeset, items });
''')],G),
 ("ok-lc-fields","ok",F,[(lh,""),(lc,'''        let mut items = completer.complete(&req.input, req.cursor_pos, req.word_pos);
        items.truncate(CMPL_ITEMS_LIM);
        if items.is_empty() { continue; }
        tx.send(Package { changeset: req.changeset, items }).ok();
''')],G),
 ("ok-lc-break","ok",F,[("            tx.send(pkg).ok();","            if tx.send(pkg).is_err() { break; }")],G),
 ("ok-lc-drain","ok",F,[("        items.truncate(CMPL_ITEMS_LIM);","        if items.len() > CMPL_ITEMS_LIM { items.drain(CMPL_ITEMS_LIM..); }")],G),
 ("ok-lc-helper","ok",F,[(lh,""),(lc,'''        if let Some(pkg) = answer(&req, completer.as_ref()) { tx.send(pkg).ok(); }
'''),("#[cfg(test)]",'''fn answer(req: &Request, completer: &dyn Completer) -> Option<Package> {
    let mut items = completer.complete(&req.input, req.cursor_pos, req.word_pos);
    if items.is_empty() { return None; }
    items.truncate(CMPL_ITEMS_LIM);
    Some(Package { changeset: req.changeset, items })
}

#[cfg(test)]''')],G),
 ("ok-sp-map","ok",F,[(sp,'''    let senders: Vec<Sender<Arc<Request>>> = completers.into_iter().map(|cmpltr| {
        let (txx, rxx) = unbounded();
        let tx = tx.clone();
        std::thread::spawn(move || loop_completer(rxx, tx, cmpltr));
        txx
    }).collect();
''')],G),
 # --- engine: bugs
 ("en-skip-last","bad",F,[("for tx in &senders {","for tx in senders.iter().skip(1) {")],G),
 ("en-oldest","bad",F,[("        if rx.is_empty() {","        if rx.is_empty() || req.word_pos == 0 {")],G),
 ("en-drop-empty","bad",F,[("        if rx.is_empty() {","        if rx.is_empty() && !req.input.is_empty() {")],G),
 ("en-stop","bad",F,[("                tx.send(req.clone()).ok();\n","                if tx.send(req.clone()).is_err() { return; }\n")],G),
 ("en-drain-drop","bad",F,[(eng,'''    while let Ok(req) = rx.recv() {
        let req = Arc::new(req);
        while rx.try_recv().is_ok() {}
        for tx in &senders { tx.send(Arc::clone(&req)).ok(); }
    }
''')],G),
 ("lc-swap","bad",F,[("complete(input, *cursor_pos, *word_pos)","complete(input, *word_pos, *cursor_pos)")],G),
 ("lc-no-trunc","bad",F,[("        items.truncate(CMPL_ITEMS_LIM);\n","")],G),
 ("lc-11","bad",F,[("items.truncate(CMPL_ITEMS_LIM);","items.truncate(CMPL_ITEMS_LIM + 1);")],G),
 ("lc-empty","bad",F,[("if !items.is_empty() {","if items.len() < CMPL_ITEMS_LIM || !items.is_empty() {")],G),
 ("lc-single-dropped","bad",F,[("if !items.is_empty() {","if items.len() > 1 {")],G),
 ("lc-stop-empty","bad",F,[("            tx.send(pkg).ok();\n        }","            tx.send(pkg).ok();\n        } else if input.is_empty() { break; }")],G),
 ("lc-last10","bad",F,[("items.truncate(CMPL_ITEMS_LIM);","if items.len() > CMPL_ITEMS_LIM { let n = items.len() - CMPL_ITEMS_LIM; items.drain(..n); }")],G),
 ("lc-stamp","bad",F,[("changeset: *changeset,","changeset: changeset.saturating_sub(1),")],G),
]
