exec(open("/verif/dev/m_more.py").read().split("CASES")[0])
def c(n, f, e, *p): return (n, "ok", f, e if isinstance(e, list) else [e], list(p))
WS='''    let mut pos = 0;
    for (idx, ch) in s.char_indices() {
        if idx > before {
            break;
        }

        if spliton.contains(ch) {
            pos = idx + ch.len_utf8();
        }
    }

    std::cmp::min(pos, before) // ensure pos is always less than or eq before
'''
HN='''        let l = Some(self.items.len().saturating_sub(1));
        self.highlighted = if l == self.highlighted {
            None
        } else if let Some(i) = self.highlighted {
            Some(i + 1)
        } else {
            Some(0)
        };
'''
RCV='''        let mut has = false;
        let chgset = self.changeset;
        for pkg in self.rx.try_iter().filter(|x| x.changeset == chgset) {
            has |= true;
            self.items.extend(pkg.items);
        }

        has
'''
RW='''        let len = self.ins_len; // copy prev len
        self.ins_len = self.cmpl().unwrap_or(&self.replace).chars().count();
        let with = self.cmpl().unwrap_or(&self.replace);
        (len, with)
'''
LC='''        let mut items = completer.complete(input, *cursor_pos, *word_pos);
        // we do some cleaning of the items here to avoid massive completion lists.
        items.truncate(CMPL_ITEMS_LIM);
        if !items.is_empty() {
            let pkg = Package {
                changeset: *changeset,
                items,
            };
            tx.send(pkg).ok();
        }
'''
EN='''    while let Ok(req) = rx.recv() {
        if rx.is_empty() {
            let req = Arc::new(req);
            for tx in &senders {
                tx.send(req.clone()).ok();
            }
        }
    }
'''
RD='''            .spawn(move || loop {
                while let Ok(ev) = read() {
                    if let Some(ev) = Event::convert_xt(ev) {
                        if tx.send(ev).is_err() {
                            return; // the receiver has been dropped
                        }
                    }
                }
            })?;
'''
MAG='''            let mut seen = false;
            chars
                .take_while(|&c| {
                    let b = c.is_alphanumeric() || "-_".contains(c);
                    seen |= b;
                    seen == b
                })
                .count()
'''
CASES=[
 c("f-ws-last", C, (WS, '''    let pos = s
        .char_indices()
        .take_while(|(idx, _)| *idx <= before)
        .filter(|(_, ch)| spliton.contains(*ch))
        .map(|(idx, ch)| idx + ch.len_utf8())
        .last()
        .unwrap_or(0);
    pos.min(before)
'''), *CM),
 c("f-ws-max", C, (WS, '''    let mut pos = 0;
    for (idx, ch) in s.char_indices().take_while(|&(i, _)| i <= before) {
        let end = idx + ch.len_utf8();
        pos = if spliton.contains(ch) { end } else { pos };
    }
    if pos > before { before } else { pos }
'''), *CM),
 c("f-ws-helper", C, [(WS, WS.replace("spliton.contains(ch)", "is_split(ch)")), ('    let spliton = " \\t\\r\\n./\\\\";\n', ""), ("fn word_start(", "fn is_split(ch: char) -> bool {\n    matches!(ch, ' ' | '\\t' | '\\r' | '\\n' | '.' | '/' | '\\\\')\n}\n\nfn word_start(")], *CM),
 c("f-ws-rfind", C, (WS, '''    match s.char_indices().rev().find(|&(i, ch)| i <= before && spliton.contains(ch)) {
        Some((i, ch)) => std::cmp::min(i + ch.len_utf8(), before),
        None => 0,
    }
'''), *CM),
 c("f-hn-map", C, (HN, '''        let last = self.items.len().saturating_sub(1);
        self.highlighted = match self.highlighted {
            Some(i) if i == last => None,
            other => Some(other.map_or(0, |i| i + 1)),
        };
'''), *CM),
 c("f-hn-helper", C, [(HN, "        self.highlighted = next_idx(self.highlighted, self.items.len());\n"), ("fn word_start(", '''fn next_idx(cur: Option<usize>, len: usize) -> Option<usize> {
    let last = len.saturating_sub(1);
    match cur {
        None => Some(0),
        Some(i) if i == last => None,
        Some(i) => Some(i + 1),
    }
}

fn word_start(''')], *CM),
 c("f-hn-none0", C, (HN, '''        let last = self.last_idx();
        let nxt = match self.highlighted {
            None => Some(0),
            Some(i) => (i != last).then(|| i + 1),
        };
        self.highlighted = nxt;
'''), *CM) if False else c("f-hn-then", C, (HN, '''        let last = self.items.len().saturating_sub(1);
        let nxt = match self.highlighted {
            None => Some(0),
            Some(i) => (i != last).then(|| i + 1),
        };
        self.highlighted = nxt;
'''), *CM),
 c("f-rcv-destruct", C, (RCV, '''        let mut has = false;
        while let Ok(Package { changeset, items }) = self.rx.try_recv() {
            if changeset != self.changeset {
                continue;
            }
            has = true;
            for item in items {
                self.items.push(item);
            }
        }
        has
'''), *CM),
 c("f-rcv-helper", C, [(RCV, '''        let mut any = false;
        while let Some(items) = self.next_items() {
            any = true;
            self.items.extend(items);
        }
        any
'''), ("    pub fn reset(&mut self) {", '''    fn next_items(&mut self) -> Option<Vec<Completion>> {
        let current = self.changeset;
        self.rx.try_iter().find(|p| p.changeset == current).map(|p| p.items)
    }

    pub fn reset(&mut self) {''')], *CM),
 c("f-rw-lenlet", C, (RW, '''        let new_len = match self.cmpl() {
            Some(s) => s.chars().count(),
            None => self.replace.chars().count(),
        };
        let len = std::mem::replace(&mut self.ins_len, new_len);
        (len, self.cmpl().unwrap_or(self.replace.as_str()))
'''), *CM),
 c("f-rw-helper", C, [(RW, '''        let prev = self.ins_len;
        self.ins_len = self.current_text().chars().count();
        (prev, self.current_text())
'''), ("    fn cmpl(&self)", '''    fn current_text(&self) -> &str {
        self.cmpl().unwrap_or(&self.replace)
    }

    fn cmpl(&self)''')], *CM),
 c("f-cmpl-q", C, ('''        self.highlighted
            .and_then(|i| self.items.get(i))
            .map(|c| c.value.as_str())
''', '''        let idx = self.highlighted?;
        let item = self.items.get(idx)?;
        Some(&item.value)
'''), *CM),
 c("f-lc-cont", C, (LC, '''        let items: Vec<_> = completer
            .complete(input, *cursor_pos, *word_pos)
            .into_iter()
            .take(CMPL_ITEMS_LIM)
            .collect();
        if items.is_empty() {
            continue;
        }
        let _ = tx.send(Package {
            changeset: *changeset,
            items,
        });
'''), *CM),
 c("f-lc-arcfield", C, [('''        let Request {
            changeset,
            input,
            cursor_pos,
            word_pos,
        } = &*req;
''', ""), (LC, LC.replace("(input, *cursor_pos, *word_pos)", "(&req.input, req.cursor_pos, req.word_pos)").replace("*changeset", "req.changeset"))], *CM),
 c("f-en-helper", C, [(EN, EN.replace('''            let req = Arc::new(req);
            for tx in &senders {
                tx.send(req.clone()).ok();
            }
''', "            broadcast(req, &senders);\n")), ("fn loop_completer(", '''fn broadcast(req: Request, senders: &[Sender<Arc<Request>>]) {
    let req = Arc::new(req);
    for tx in senders {
        let _ = tx.send(Arc::clone(&req));
    }
}

fn loop_completer(''')], *CM),
 c("f-en-for", C, (EN, '''    for req in rx.iter() {
        if !rx.is_empty() {
            continue;
        }
        let req = Arc::new(req);
        senders.iter().for_each(|tx| {
            tx.send(req.clone()).ok();
        });
    }
'''), *CM),
 c("f-h-map", HF, (HB, '''        let last = self.items.len().saturating_sub(1);
        self.idx = self.idx.map_or(Some(last), |x| x.checked_sub(1));
'''), "H01"),
 c("f-h-fw-then", HF, (HFW, '''        let last = self.items.len().saturating_sub(1);
        self.idx = match self.idx {
            None => Some(0),
            Some(x) => (x != last).then_some(x.wrapping_add(1)),
        };
'''), "H01"),
 c("f-h-last-helper", HF, [(HB, HB.replace("self.items.len().saturating_sub(1)", "self.last()")), (HFW, HFW.replace("self.items.len().saturating_sub(1)", "self.last()")), ("    pub fn back(", "    fn last(&self) -> usize {\n        self.items.len().saturating_sub(1)\n    }\n\n    pub fn back(")], "H01"),
 c("f-h-add-excess", HF, (HA, '''        self.idx = None;
        self.items.push(line);
        if let Some(excess) = self.items.len().checked_sub(LIM) {
            self.items.drain(..excess);
        }
'''), "H01"),
 c("f-h-add-splitoff", HF, (HA, '''        self.items.push(line);
        if self.items.len() > LIM {
            let at = self.items.len() - LIM;
            self.items = self.items.split_off(at);
        }
        self.idx.take();
'''), "H01"),
 c("f-h-add-rotate", HF, (HA, '''        let len = self.items.len();
        let drop = (len + 1).saturating_sub(LIM);
        self.items.drain(0..drop);
        self.items.push(line);
        self.idx = Option::None;
'''), "H01"),
 c("f-e-loop-match", EV, (RD, '''            .spawn(move || loop {
                let ev = match read() {
                    Ok(raw) => match Event::convert_xt(raw) {
                        Some(ev) => ev,
                        None => continue,
                    },
                    Err(_) => continue,
                };
                if let Err(_) = tx.send(ev) {
                    break;
                }
            })?;
'''), "E01"),
 c("f-e-flat", EV, (RD, '''            .spawn(move || loop {
                if let Some(ev) = read().ok().and_then(Event::convert_xt) {
                    if tx.send(ev).is_err() {
                        return;
                    }
                }
            })?;
'''), "E01"),
 c("f-e-fn", EV, [(RD, "            .spawn(move || read_events(tx))?;\n"), ("impl Iterator for Events", '''fn read_events(tx: ::libs::crossbeam::channel::Sender<Event>) {
    loop {
        let sent = match read().map(Event::convert_xt) {
            Ok(Some(ev)) => tx.send(ev).is_ok(),
            _ => true,
        };
        if !sent {
            return;
        }
    }
}

impl Iterator for Events''')], "E01"),
 c("f-i-mag-helper", I, [(MAG, MAG.replace('c.is_alphanumeric() || "-_".contains(c)', "is_word_char(c)")), ("fn mv_magnitude", "fn is_word_char(c: char) -> bool {\n    c.is_alphanumeric() || c == '-' || c == '_'\n}\n\nfn mv_magnitude")], *IN),
 c("f-i-mag-while", I, [(MAG, '''            let mut chars = chars.peekable();
            let mut n = 0;
            while let Some(_) = chars.next_if(|&c| !is_word_char(c)) {
                n += 1;
            }
            while chars.next_if(|&c| is_word_char(c)).is_some() {
                n += 1;
            }
            n
'''), ("fn mv_magnitude", "fn is_word_char(c: char) -> bool {\n    c.is_alphanumeric() || matches!(c, '-' | '_')\n}\n\nfn mv_magnitude")], *IN),
 c("f-i-mag-state", I, (MAG, '''            let mut in_word = false;
            let mut n = 0;
            for c in chars {
                match (in_word, c.is_alphanumeric() || c == '-' || c == '_') {
                    (true, false) => break,
                    (_, w) => in_word = w,
                }
                n += 1;
            }
            n
'''), *IN),
 c("f-i-split", I, ('''        let n = mv_magnitude(by, self.buf[..self.pos].iter().copied().rev());
        self.pos = self.pos.saturating_sub(n);
''', '''        let (before, _) = self.buf.split_at(self.pos);
        let n = mv_magnitude(by, before.iter().rev().cloned());
        self.pos -= n.min(self.pos);
'''), *IN),
 c("f-i-right", I, ('''        let n = mv_magnitude(by, self.buf[self.pos..].iter().copied());
        self.pos = std::cmp::min(self.pos.saturating_add(n), self.buf.len());
''', '''        let rest = &self.buf[self.pos..];
        let n = mv_magnitude(by, rest.iter().copied()).min(rest.len());
        self.pos += n;
'''), *IN),
 c("f-i-istr", I, ('''        for c in s.chars() {
            self.insert(c);
        }
''', '''        s.chars().for_each(|c| self.insert(c));
'''), *IN),
 c("f-i-remove-helper", I, [('''            self.pos -= 1;
            self.buf.remove(self.pos);
            self.buf_changed = true;
''','''            self.pos -= 1;
            self.remove_at_cursor();
'''), ('''            self.buf.remove(self.pos);
            self.buf_changed = true;
''','''            self.remove_at_cursor();
'''), ("    pub fn move_start", '''    fn remove_at_cursor(&mut self) {
        self.buf.remove(self.pos);
        self.buf_changed = true;
    }

    pub fn move_start''')], *IN),
]
