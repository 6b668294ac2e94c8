C="ogma-shell/interface/completions.rs"; I="ogma-shell/interface/input.rs"; HF="ogma-shell/interface/history.rs"; EV="ogma-shell/interface/events.rs"; T="ogma-shell/interface/theme.rs"
def c(n, ex, f, e, *p): return (n, ex, f, e if isinstance(e, list) else [e], list(p))
RQ='''        let input = input_buf.buffer(..);
        let cursor_pos = input_buf.buf_pos();
        let word_pos = word_start(&input, cursor_pos);
        self.replace = input[word_pos..cursor_pos].to_string();
        self.ins_len = self.replace.chars().count();
        self.start_pos = input_buf.ch_pos().saturating_sub(self.ins_len);
'''
WS='''    let mut pos = 0;
    for (idx, ch) in s.char_indices() {
        if idx > before {
            break;
        }

        if spliton.contains(ch) {
            pos = idx + ch.len_utf8();
        }
    }

    std::cmp::min(pos, before) // ensure pos is always less than or eq before
'''
RV='''        let mut has = false;
        let chgset = self.changeset;
        for pkg in self.rx.try_iter().filter(|x| x.changeset == chgset) {
            has |= true;
            self.items.extend(pkg.items);
        }

        has
'''
EN='''    let mut senders = Vec::with_capacity(completers.len());
    for cmpltr in completers {
        let (txx, rxx) = unbounded();
        senders.push(txx);
        let tx = tx.clone();
        std::thread::Builder::new()
            .name("completion-engine-looper".into())
            .spawn(|| loop_completer(rxx, tx, cmpltr))
            .unwrap();
    }
'''
LC='''        let mut items = completer.complete(input, *cursor_pos, *word_pos);
        // we do some cleaning of the items here to avoid massive completion lists.
        items.truncate(CMPL_ITEMS_LIM);
        if !items.is_empty() {
            let pkg = Package {
                changeset: *changeset,
                items,
            };
            tx.send(pkg).ok();
        }
'''
MV='''            let mut seen = false;
            chars
                .take_while(|&c| {
                    let b = c.is_alphanumeric() || "-_".contains(c);
                    seen |= b;
                    seen == b
                })
                .count()
'''
LOOP='''            .spawn(move || loop {
                while let Ok(ev) = read() {
                    if let Some(ev) = Event::convert_xt(ev) {
                        if tx.send(ev).is_err() {
                            return; // the receiver has been dropped
                        }
                    }
                }
            })?;
'''
NEXT='''        let l = Some(self.items.len().saturating_sub(1));
        self.highlighted = if l == self.highlighted {
            None
        } else if let Some(i) = self.highlighted {
            Some(i + 1)
        } else {
            Some(0)
        };
        self.replace_with()'''
RW='''        let len = self.ins_len; // copy prev len
        self.ins_len = self.cmpl().unwrap_or(&self.replace).chars().count();
        let with = self.cmpl().unwrap_or(&self.replace);
        (len, with)
'''
CASES=[
 c("x-rq-fn","ok",C,[(RQ,'''        let (input, cursor_pos, word_pos) = Self::split(input_buf);
        let word = &input[word_pos..cursor_pos];
        let len = word.chars().count();
        self.replace = word.to_owned();
        self.ins_len = len;
        self.start_pos = input_buf.ch_pos().saturating_sub(len);
'''),("    /// Returns if there were items","    fn split(b: &InputBuffer) -> (String, usize, usize) {\n        let input = b.buffer(..);\n        let cursor = b.buf_pos();\n        let word = word_start(&input, cursor);\n        (input, cursor, word)\n    }\n\n    /// Returns if there were items")],"C01"),
 c("x-rq-minus","ok",C,(RQ,RQ.replace("input_buf.ch_pos().saturating_sub(self.ins_len)","input_buf.ch_pos() - self.ins_len")),"C01"),
 c("x-rq-get","ok",C,(RQ,RQ.replace("input[word_pos..cursor_pos].to_string()","input.get(word_pos..cursor_pos).unwrap_or_default().to_string()")),"C01"),
 c("x-rq-insfirst","ok",C,(RQ,'''        let input = input_buf.buffer(..);
        let cursor_pos = input_buf.buf_pos();
        let word_pos = word_start(&input, cursor_pos);
        self.ins_len = input[word_pos..cursor_pos].chars().count();
        self.replace.clear();
        self.replace.push_str(&input[word_pos..cursor_pos]);
        self.start_pos = input_buf.ch_pos().saturating_sub(self.ins_len);
'''),"C01"),
 c("x-rq-next","ok",C,("        self.changeset = self.changeset.wrapping_add(1);\n        self.reset();","        self.reset();\n        self.changeset = self.changeset.wrapping_add(1);"),"C01"),
 c("x-rq-let","ok",C,[("        self.tx.send(req).ok();","        if self.tx.send(req).is_err() {\n            // engine is gone\n        }")],"C01"),
 c("x-ws-iter","ok",C,(WS,'''    s.char_indices()
        .take_while(|&(idx, _)| idx <= before)
        .filter(|&(_, ch)| spliton.contains(ch))
        .last()
        .map_or(0, |(idx, ch)| idx + ch.len_utf8())
        .min(before)
'''),"C01"),
 c("x-ws-matches","ok",C,(WS,WS.replace("spliton.contains(ch)","matches!(ch, ' ' | '\\t' | '\\r' | '\\n' | '.' | '/' | '\\\\')").replace("    let mut pos = 0;","    let _ = spliton;\n    let mut pos = 0;")),"C01"),
 c("x-ws-isfn","ok",C,[(WS,WS.replace("spliton.contains(ch)","is_split(ch)").replace("    let mut pos = 0;","    let _ = spliton;\n    let mut pos = 0;")),("struct Package {","fn is_split(ch: char) -> bool {\n    const SPLIT: [char; 7] = [' ', '\\t', '\\r', '\\n', '.', '/', '\\\\'];\n    SPLIT.contains(&ch)\n}\n\nstruct Package {")],"C01"),
 c("x-ws-whilelet","ok",C,(WS,'''    let mut pos = 0;
    let mut iter = s.char_indices();
    while let Some((idx, ch)) = iter.next() {
        if idx > before {
            break;
        }
        if !spliton.contains(ch) {
            continue;
        }
        pos = idx + ch.len_utf8();
    }
    pos.min(before)
'''),"C01"),
 c("x-ws-ifret","ok",C,(WS,WS.replace("    std::cmp::min(pos, before) // ensure pos is always less than or eq before\n","    if pos > before {\n        before\n    } else {\n        pos\n    }\n")),"C01"),
 c("x-rv-fold","ok",C,(RV,'''        let chgset = self.changeset;
        let items = &mut self.items;
        self.rx.try_iter().filter(|x| x.changeset == chgset).fold(false, |_, pkg| {
            items.extend(pkg.items);
            true
        })
'''),"C02"),
 c("x-rv-continue","ok",C,(RV,'''        let mut received = false;
        for Package { changeset, items } in self.rx.try_iter() {
            if changeset != self.changeset {
                continue;
            }
            received = true;
            for item in items {
                self.items.push(item);
            }
        }
        received
'''),"C02"),
 c("x-rv-take","ok",C,(RV,'''        let mut has = false;
        while let Ok(mut pkg) = self.rx.try_recv() {
            if self.is_current(&pkg) {
                has = true;
                self.items.append(&mut pkg.items);
            }
        }
        has
'''),"C02") if 0 else c("x-rv-iscur","ok",C,[(RV,'''        let mut has = false;
        while let Ok(mut pkg) = self.rx.try_recv() {
            if self.is_current(&pkg) {
                has = true;
                self.items.append(&mut pkg.items);
            }
        }
        has
'''),("    pub fn reset(&mut self) {","    fn is_current(&self, pkg: &Package) -> bool {\n        pkg.changeset == self.changeset\n    }\n\n    pub fn reset(&mut self) {")],"C02"),
 c("x-reset-assign","ok",C,("        self.items.clear();\n        self.highlighted = None;","        self.highlighted.take();\n        self.items.truncate(0);"),"C01","C02"),
 c("x-has","ok",C,("        !self.items.is_empty()","        self.items.first().is_some()"),"C02"),
 c("x-has2","ok",C,("        !self.items.is_empty()","        self.items.len() > 0"),"C02"),
 c("x-hn-last","ok",C,(NEXT,'''        let last = self.items.len().saturating_sub(1);
        self.highlighted = match self.highlighted {
            None => Some(0),
            Some(i) if i == last => None,
            Some(i) => Some(i + 1),
        };
        self.replace_with()'''),"C03"),
 c("x-hn-step","ok",C,[(NEXT,'''        self.highlighted = self.step_forward();
        self.replace_with()'''),("    fn cmpl(&self)","    fn step_forward(&self) -> Option<usize> {\n        let last = self.last_index();\n        match self.highlighted {\n            Some(i) if i != last => Some(i + 1),\n            Some(_) => None,\n            None => Some(0),\n        }\n    }\n\n    fn last_index(&self) -> usize {\n        self.items.len().saturating_sub(1)\n    }\n\n    fn cmpl(&self)")],"C03"),
 c("x-rw-fn","ok",C,[(RW,'''        let prev = std::mem::take(&mut self.ins_len);
        let new = self.current_text().chars().count();
        self.ins_len = new;
        (prev, self.current_text())
'''),("    fn cmpl(&self)","    fn current_text(&self) -> &str {\n        self.cmpl().unwrap_or(self.replace.as_str())\n    }\n\n    fn cmpl(&self)")],"C03"),
 c("x-cmpl","ok",C,('''        self.highlighted
            .and_then(|i| self.items.get(i))
            .map(|c| c.value.as_str())''','''        let i = self.highlighted?;
        let c = self.items.get(i)?;
        Some(&c.value)'''),"C03"),
 c("x-cmpl2","ok",C,('''        self.highlighted
            .and_then(|i| self.items.get(i))
            .map(|c| c.value.as_str())''','''        match self.highlighted {
            Some(i) if i < self.items.len() => Some(self.items[i].value.as_str()),
            _ => None,
        }'''),"C03"),
 c("x-en-map","ok",C,(EN,'''    let senders: Vec<_> = completers
        .into_iter()
        .map(|cmpltr| {
            let (txx, rxx) = unbounded();
            let tx = tx.clone();
            std::thread::Builder::new()
                .name("completion-engine-looper".into())
                .spawn(|| loop_completer(rxx, tx, cmpltr))
                .unwrap();
            txx
        })
        .collect();
'''),"C04"),
 c("x-en-helper","ok",C,[(EN,'''    let mut senders = Vec::with_capacity(completers.len());
    for cmpltr in completers {
        senders.push(spawn_looper(cmpltr, tx.clone()));
    }
'''),("fn run_engine(","fn spawn_looper(cmpltr: Box<dyn Completer>, tx: Sender<Package>) -> Sender<Arc<Request>> {\n    let (txx, rxx) = unbounded();\n    std::thread::Builder::new()\n        .name(\"completion-engine-looper\".into())\n        .spawn(move || loop_completer(rxx, tx, cmpltr))\n        .unwrap();\n    txx\n}\n\nfn broadcast(senders: &[Sender<Arc<Request>>], req: Request) {\n    let req = Arc::new(req);\n    senders.iter().for_each(|tx| {\n        tx.send(Arc::clone(&req)).ok();\n    });\n}\n\nfn run_engine("),('''            let req = Arc::new(req);
            for tx in &senders {
                tx.send(req.clone()).ok();
            }
''','''            broadcast(&senders, req);
''')],"C04"),
 c("x-en-continue","ok",C,('''        if rx.is_empty() {
            let req = Arc::new(req);
            for tx in &senders {
                tx.send(req.clone()).ok();
            }
        }
''','''        if !rx.is_empty() {
            continue;
        }

        let req = Arc::new(req);
        for tx in senders.iter() {
            let _ = tx.send(req.clone());
        }
'''),"C04"),
 c("x-en-for","ok",C,("    while let Ok(req) = rx.recv() {\n        if rx.is_empty","    for req in rx.iter() {\n        if rx.is_empty"),"C04"),
 c("x-en-len","ok",C,("        if rx.is_empty() {","        if rx.len() == 0 {"),"C04"),
 c("x-lc-early","ok",C,(LC,'''        let mut items = completer.complete(input, *cursor_pos, *word_pos);
        if items.is_empty() {
            continue;
        }
        if items.len() > CMPL_ITEMS_LIM {
            items.truncate(CMPL_ITEMS_LIM);
        }
        let _ = tx.send(Package { items, changeset: *changeset });
'''),"C04"),
 c("x-lc-for","ok",C,("fn loop_completer(rx: Receiver<Arc<Request>>, tx: Sender<Package>, completer: Box<dyn Completer>) {\n    while let Ok(req) = rx.recv() {","fn loop_completer(rx: Receiver<Arc<Request>>, tx: Sender<Package>, completer: Box<dyn Completer>) {\n    for req in rx {"),"C04"),
 c("x-lc-as-ref","ok",C,("        } = &*req;","        } = req.as_ref();"),"C04"),
 c("x-lc-answer","ok",C,[(LC,'''        let items = limit(completer.complete(input, *cursor_pos, *word_pos));
        match items.len() {
            0 => (),
            _ => {
                tx.send(Package { changeset: *changeset, items }).ok();
            }
        }
'''),("fn run_engine(","fn limit(mut items: Vec<Completion>) -> Vec<Completion> {\n    items.truncate(CMPL_ITEMS_LIM);\n    items\n}\n\nfn run_engine(")],"C04"),
 # input
 c("x-ins-mark","ok",I,[("        self.buf.insert(self.pos, ch);\n        self.pos += 1;\n        self.buf_changed = true;","        let at = self.pos;\n        self.mark_changed();\n        self.buf.insert(at, ch);\n        self.pos = at + 1;"),("    /// Removes from _start_","    fn mark_changed(&mut self) {\n        self.buf_changed = true;\n    }\n\n    /// Removes from _start_")],"I01"),
 c("x-istr-foreach","ok",I,("        for c in s.chars() {\n            self.insert(c);\n        }","        s.chars().for_each(|c| self.insert(c));"),"I01"),
 c("x-bs-match","ok",I,("        if self.pos > 0 {\n            self.pos -= 1;\n            self.buf.remove(self.pos);\n            self.buf_changed = true;\n        }","        match self.pos {\n            0 => (),\n            p => {\n                self.buf.remove(p - 1);\n                self.pos = p - 1;\n                self.buf_changed = true;\n            }\n        }"),"I01"),
 c("x-bs-left","ok",I,("        if self.pos > 0 {\n            self.pos -= 1;\n            self.buf.remove(self.pos);\n            self.buf_changed = true;\n        }","        if self.pos == 0 {\n            return;\n        }\n        self.move_left(Mvmt::Ch(1));\n        self.delete();"),"I01"),
 c("x-dl-remove","ok",I,[("        if self.pos < self.buf.len() {\n            self.buf.remove(self.pos);\n            self.buf_changed = true;\n        }","        if !self.at_end() {\n            self.buf.remove(self.pos);\n            self.buf_changed = true;\n        }"),("    pub fn move_start","    fn at_end(&self) -> bool {\n        self.pos >= self.buf.len()\n    }\n\n    pub fn move_start")],"I01"),
 c("x-clear-new","ok",I,("        self.buf.clear();\n        self.pos = 0;\n        self.buf_changed = true;","        *self = Self {\n            buf_changed: true,\n            ..Self::new()\n        };"),"I01"),
 c("x-bp-chars","ok",I,("        self.buf[..self.pos].iter().map(|x| x.len_utf8()).sum()","        let before = self.chars(..self.pos);\n        before.iter().copied().map(char::len_utf8).sum()"),"I02"),
 c("x-bp-acc","ok",I,("        self.buf[..self.pos].iter().map(|x| x.len_utf8()).sum()","        let mut bytes = 0;\n        for ch in &self.buf[..self.pos] {\n            bytes += ch.len_utf8();\n        }\n        bytes"),"I02"),
 c("x-bp-buffer","ok",I,("        self.buf[..self.pos].iter().map(|x| x.len_utf8()).sum()","        self.buffer(..self.pos).len()"),"I02"),
 c("x-ml-sub","ok",I,("        self.pos = self.pos.saturating_sub(n);","        self.pos -= n.min(self.pos);"),"I03"),
 c("x-mr-rem","ok",I,("        self.pos = std::cmp::min(self.pos.saturating_add(n), self.buf.len());","        let remaining = self.buf.len() - self.pos;\n        self.pos += n.min(remaining);"),"I03"),
 c("x-mr-if","ok",I,("        self.pos = std::cmp::min(self.pos.saturating_add(n), self.buf.len());","        let end = self.buf.len();\n        self.pos = if n < end - self.pos { self.pos + n } else { end };"),"I03"),
 c("x-mag-isword","ok",I,[(MV,'''            let mut seen = false;
            chars
                .take_while(|&c| {
                    let b = is_word_char(c);
                    seen |= b;
                    seen == b
                })
                .count()
'''),("fn mv_magnitude(","fn is_word_char(c: char) -> bool {\n    c.is_alphanumeric() || c == '-' || c == '_'\n}\n\nfn mv_magnitude(")],"I03"),
 c("x-mag-loop","ok",I,[(MV,'''            let mut seen = false;
            let mut count = 0;
            for c in chars {
                let word = c.is_alphanumeric() || matches!(c, '-' | '_');
                if seen && !word {
                    break;
                }
                seen = seen || word;
                count += 1;
            }
            count
''')],"I03"),
 c("x-mag-ret","ok",I,[('''    match by {
        Mvmt::Ch(x) => x,
        Mvmt::Word => {
'''+MV+'''        }
    }
''','''    if let Mvmt::Ch(x) = by {
        return x;
    }
    let mut in_word = false;
    let mut n = 0;
    for c in chars {
        if c.is_alphanumeric() || "-_".contains(c) {
            in_word = true;
        } else if in_word {
            return n;
        }
        n += 1;
    }
    n
''')],"I03"),
 c("x-mag-peek","ok",I,[(MV,'''            let is_word = |c: &char| c.is_alphanumeric() || "-_".contains(*c);
            let mut chars = chars.peekable();
            let mut n = 0;
            while chars.next_if(|c| !is_word(c)).is_some() {
                n += 1;
            }
            while chars.next_if(is_word).is_some() {
                n += 1;
            }
            n
''')],"I03"),
 # history
 c("x-h-last","ok",HF,[("None => Some(self.items.len().saturating_sub(1)),","None => Some(self.last()),"),("let l = Some(self.items.len().saturating_sub(1));","let l = Some(self.last());"),("    /// Reset history","    fn last(&self) -> usize {\n        self.items.len().saturating_sub(1)\n    }\n\n    /// Reset history")],"H01"),
 c("x-h-excess","ok",HF,[("        while self.items.len() >= LIM {\n            self.items.remove(0);\n        }\n        self.items.push(line);\n        self.idx = None;","        self.items.push(line);\n        self.trim();\n        self.idx.take();"),("    /// Reset history","    fn trim(&mut self) {\n        let excess = self.items.len().saturating_sub(LIM);\n        self.items.drain(0..excess);\n    }\n\n    /// Reset history")],"H01"),
 c("x-h-fwdle","ok",HF,[("        self.idx = if self.idx == l {\n            None\n        } else if let Some(x) = self.idx {\n            Some(x + 1)\n        } else {\n            Some(0)\n        };","        self.idx = match (self.idx, l) {\n            (None, _) => Some(0),\n            (Some(a), Some(b)) if a == b => None,\n            (Some(a), _) => Some(a + 1),\n        };")],"H01"),
 # events
 c("x-e-if","ok",EV,(LOOP,'''            .spawn(move || loop {
                let ev = match read() {
                    Ok(ev) => ev,
                    Err(_) => continue,
                };
                let ev = match Event::convert_xt(ev) {
                    Some(ev) => ev,
                    None => continue,
                };
                if tx.send(ev).is_err() {
                    break;
                }
            })?;
'''),"E01"),
 c("x-e-fn","ok",EV,[(LOOP,'''            .spawn(move || while forward_next(&tx) {})?;
'''),("impl Iterator for Events","fn forward_next(tx: &crossbeam_tx::Sender<Event>) -> bool {\n    read()\n        .ok()\n        .and_then(Event::convert_xt)\n        .map_or(true, |ev| tx.send(ev).is_ok())\n}\n\nimpl Iterator for Events"),("use std::io;","use std::io;\nuse ::libs::crossbeam::channel as crossbeam_tx;")],"E01"),
 c("x-e-flat","ok",EV,(LOOP,'''            .spawn(move || loop {
                if let Some(ev) = read().ok().and_then(Event::convert_xt) {
                    if let Err(_) = tx.send(ev) {
                        return;
                    }
                }
            })?;
'''),"E01"),
 c("x-e-conv","ok",EV,('''            XtEvent::Key(KeyEvent { code, modifiers }) => Some(Event::Key {
                code,
                mods: modifiers,
            }),
            XtEvent::Resize(_, _) => Some(Event::Resize),
            _ => None,''','''            XtEvent::Key(key) => Some(Event::from(key)),
            XtEvent::Resize(..) => Some(Self::Resize),
            XtEvent::Mouse(_) => None,''') if 0 else ('''            XtEvent::Key(KeyEvent { code, modifiers }) => Some(Event::Key {
                code,
                mods: modifiers,
            }),''','''            XtEvent::Key(key) => {
                let KeyEvent { code, modifiers: mods } = key;
                Some(Self::Key { code, mods })
            }'''),"E01"),
 # theme
 c("x-t-struct","ok",T,('''    style.fg = style.fg.map(Th::colour);
    style.bg = style.bg.map(Th::colour);
''','''    style = Style {
        fg: style.fg.map(Th::colour),
        bg: style.bg.map(Th::colour),
        ..style
    };
'''),"T01"),
 c("x-t-order","ok",T,('''    style.fg = style.fg.map(Th::colour);
    style.bg = style.bg.map(Th::colour);
''','''    style.bg = style.bg.map(|c| Th::colour(c));
    style.fg = style.fg.map(|c| Th::colour(c));
'''),"T01"),
 c("x-t-if","ok",T,('''            1 => apply::<Light>(self),
            x => unreachable!("{x} theme not handled"),''','''            _ => apply::<Light>(self),'''),"T01"),
 c("x-t-mod","ok",T,('''        match style.add_modifier.contains(m) {
            true if rm => style.remove_modifier(m),
            false if add => style.add_modifier(m),
            _ => style,
        }''','''        let has = style.add_modifier.contains(m);
        if has && rm {
            style.remove_modifier(m)
        } else if !has && add {
            style.add_modifier(m)
        } else {
            style
        }'''),"T01"),
]
