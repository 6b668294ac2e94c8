C="ogma-shell/interface/completions.rs"; I="ogma-shell/interface/input.rs"; HF="ogma-shell/interface/history.rs"; EV="ogma-shell/interface/events.rs"; T="ogma-shell/interface/theme.rs"; A="bin/app.rs"
def c(n, f, e, *p): return (n, "ok", f, e if isinstance(e, list) else [e], list(p))
IN=("I01","I02","I03"); CM=("C01","C02","C03","C04")
HB='''        self.idx = match self.idx {
            Some(0) => None,
            Some(x) => Some(x.saturating_sub(1)),
            None => Some(self.items.len().saturating_sub(1)),
        };
'''
HFW='''        let l = Some(self.items.len().saturating_sub(1));
        self.idx = if self.idx == l {
            None
        } else if let Some(x) = self.idx {
            Some(x + 1)
        } else {
            Some(0)
        };
'''
HA='''        while self.items.len() >= LIM {
            self.items.remove(0);
        }
        self.items.push(line);
        self.idx = None;
'''
MV='''            let mut seen = false;
            chars
                .take_while(|&c| {
                    let b = c.is_alphanumeric() || "-_".contains(c);
                    seen |= b;
                    seen == b
                })
                .count()
'''
RW='''        let len = self.ins_len; // copy prev len
        self.ins_len = self.cmpl().unwrap_or(&self.replace).chars().count();
        let with = self.cmpl().unwrap_or(&self.replace);
        (len, with)
'''
WS='''    let mut pos = 0;
    for (idx, ch) in s.char_indices() {
        if idx > before {
            break;
        }

        if spliton.contains(ch) {
            pos = idx + ch.len_utf8();
        }
    }

    std::cmp::min(pos, before) // ensure pos is always less than or eq before
'''
CHN='''        let l = Some(self.items.len().saturating_sub(1));
        self.highlighted = if l == self.highlighted {
            None
        } else if let Some(i) = self.highlighted {
            Some(i + 1)
        } else {
            Some(0)
        };
'''
CHP='''        self.highlighted = match self.highlighted {
            Some(0) => None,
            Some(x) => Some(x.saturating_sub(1)),
            None => Some(self.items.len().saturating_sub(1)),
        };
'''
RV='''        let mut has = false;
        let chgset = self.changeset;
        for pkg in self.rx.try_iter().filter(|x| x.changeset == chgset) {
            has |= true;
            self.items.extend(pkg.items);
        }

        has
'''
EVL='''            .spawn(move || loop {
                while let Ok(ev) = read() {
                    if let Some(ev) = Event::convert_xt(ev) {
                        if tx.send(ev).is_err() {
                            return; // the receiver has been dropped
                        }
                    }
                }
            })?;
'''
CV='''        match ev {
            XtEvent::Key(KeyEvent { code, modifiers }) => Some(Event::Key {
                code,
                mods: modifiers,
            }),
            XtEvent::Resize(_, _) => Some(Event::Resize),
            _ => None,
        }
'''
LC='''        let Request {
            changeset,
            input,
            cursor_pos,
            word_pos,
        } = &*req;
        let mut items = completer.complete(input, *cursor_pos, *word_pos);
        // we do some cleaning of the items here to avoid massive completion lists.
        items.truncate(CMPL_ITEMS_LIM);
        if !items.is_empty() {
            let pkg = Package {
                changeset: *changeset,
                items,
            };
            tx.send(pkg).ok();
        }
'''
CASES=[
 # history
 c("h-last-helper", HF, [(HB, "        self.idx = match self.idx {\n            Some(0) => None,\n            Some(x) => Some(x - 1),\n            None => Some(self.last_idx()),\n        };\n"), ("let l = Some(self.items.len().saturating_sub(1));", "let l = Some(self.last_idx());"), ("    pub fn back(", "    fn last_idx(&self) -> usize {\n        self.items.len().saturating_sub(1)\n    }\n\n    pub fn back(")], "H01"),
 c("h-fwd-match", HF, (HFW, "        let last = self.items.len().saturating_sub(1);\n        self.idx = match self.idx {\n            Some(x) if x == last => None,\n            Some(x) => Some(x + 1),\n            None => Some(0),\n        };\n"), "H01"),
 c("h-fwd-map", HF, (HFW, "        let last = self.items.len().saturating_sub(1);\n        self.idx = match self.idx {\n            None => Some(0),\n            some => some.filter(|&x| x != last).map(|x| x + 1),\n        };\n"), "H01"),
 c("h-fwd-early", HF, (HFW, "        let next = self.idx.map_or(0, |x| x + 1);\n        if self.idx == Some(self.items.len().saturating_sub(1)) {\n            self.idx = None;\n            return;\n        }\n        self.idx = Some(next);\n"), "H01"),
 c("h-back-empty", HF, (HB, "        self.idx = match self.idx {\n            None => self.items.len().checked_sub(1),\n            Some(x) => x.checked_sub(1),\n        };\n"), "H01"),
 c("h-back-unwrap", HF, (HB, "        let from = self.idx.unwrap_or(self.items.len());\n        self.idx = if from == 0 { None } else { Some(from - 1) };\n"), "H01"),
 c("h-fwd-both", HF, (HFW, "        let next = match self.idx { Some(x) => x + 1, None => 0 };\n        self.idx = if next < self.items.len() { Some(next) } else { None };\n"), "H01"),
 c("h-add-drain", HF, (HA, "        self.items.push(line);\n        let excess = self.items.len().saturating_sub(LIM);\n        self.items.drain(..excess);\n        self.idx = None;\n"), "H01"),
 c("h-add-if", HF, (HA, "        self.idx = None;\n        if self.items.len() >= LIM {\n            let n = self.items.len() + 1 - LIM;\n            self.items.drain(0..n);\n        }\n        self.items.push(line);\n"), "H01"),
 c("h-add-rotate", HF, (HA, "        if self.items.len() < LIM {\n            self.items.push(line);\n        } else {\n            self.items.rotate_left(1);\n            self.items[LIM - 1] = line;\n        }\n        self.idx = None;\n"), "H01"),
 c("h-add-trim", HF, [(HA, "        self.trim(LIM - 1);\n        self.items.push(line);\n        self.reset();\n    }\n\n    fn reset(&mut self) {\n        self.idx = None;\n    }\n\n    fn trim(&mut self, to: usize) {\n        while self.items.len() > to {\n            self.items.remove(0);\n        }\n")], "H01"),
 c("h-current-match", HF, ("self.idx.and_then(|i| self.items.get(i)).map(|x| x.as_str())", "match self.idx {\n            Some(i) if i < self.items.len() => Some(&self.items[i]),\n            _ => None,\n        }"), "H01"),
 c("h-current-q", HF, ("self.idx.and_then(|i| self.items.get(i)).map(|x| x.as_str())", "let idx = self.idx?;\n        self.items.get(idx).map(String::as_str)"), "H01"),
 c("h-split-off", HF, (HA, "        if self.items.len() >= LIM {\n            let at = self.items.len() - (LIM - 1);\n            self.items = self.items.split_off(at);\n        }\n        self.items.push(line);\n        self.idx = None;\n"), "H01"),
 c("h-deque", HF, [(HA, "        while self.items.len() >= LIM {\n            self.items.pop_front();\n        }\n        self.items.push_back(line);\n        self.idx = None;\n"), ("    items: Vec<String>,\n    idx", "    items: std::collections::VecDeque<String>,\n    idx"), ("items: Vec::new()", "items: std::collections::VecDeque::new()")], "H01"),
 # input
 c("i-moveto", I, [("        self.pos = self.pos.saturating_sub(n);", "        self.set_pos(self.pos.saturating_sub(n));"), ("        self.pos = std::cmp::min(self.pos.saturating_add(n), self.buf.len());", "        self.set_pos(self.pos.saturating_add(n));"), ("    pub fn buffer_changed", "    fn set_pos(&mut self, pos: usize) {\n        self.pos = pos.min(self.buf.len());\n    }\n\n    pub fn buffer_changed"), ("    pub fn move_start(&mut self) {\n        self.pos = 0;", "    pub fn move_start(&mut self) {\n        self.set_pos(0);")], *IN),
 c("i-split", I, [("        let n = mv_magnitude(by, self.buf[..self.pos].iter().copied().rev());", "        let (before, _) = self.buf.split_at(self.pos);\n        let n = mv_magnitude(by, before.iter().rev().copied());"), ("        let n = mv_magnitude(by, self.buf[self.pos..].iter().copied());", "        let (_, after) = self.buf.split_at(self.pos);\n        let n = mv_magnitude(by, after.iter().cloned());")], *IN),
 c("i-accessors", I, [("        let n = mv_magnitude(by, self.buf[..self.pos].iter().copied().rev());", "        let n = mv_magnitude(by, self.before().iter().copied().rev());"), ("        let n = mv_magnitude(by, self.buf[self.pos..].iter().copied());", "        let n = mv_magnitude(by, self.after().iter().copied());"), ("        self.buf[..self.pos].iter().map(|x| x.len_utf8()).sum()", "        self.before().iter().map(|x| x.len_utf8()).sum()"), ("    pub fn buffer_changed", "    fn before(&self) -> &[char] {\n        &self.buf[..self.pos]\n    }\n\n    fn after(&self) -> &[char] {\n        &self.buf[self.pos..]\n    }\n\n    pub fn buffer_changed")], *IN),
 c("i-right-rem", I, ("        self.pos = std::cmp::min(self.pos.saturating_add(n), self.buf.len());", "        let remaining = self.buf.len() - self.pos;\n        self.pos += n.min(remaining);"), *IN),
 c("i-left-min", I, ("        self.pos = self.pos.saturating_sub(n);", "        self.pos -= std::cmp::min(n, self.pos);"), *IN),
 c("i-mag-isword", I, [(MV, "            let mut seen = false;\n            chars\n                .take_while(|&c| {\n                    let b = is_word_char(c);\n                    seen = seen || b;\n                    !seen || b\n                })\n                .count()\n"), ("fn mv_magnitude(", "fn is_word_char(c: char) -> bool {\n    c.is_alphanumeric() || matches!(c, '-' | '_')\n}\n\nfn mv_magnitude(")], *IN),
 c("i-mag-two", I, [(MV, "            let mut chars = chars.peekable();\n            let mut n = 0;\n            while chars.next_if(|&c| !is_word(c)).is_some() {\n                n += 1;\n            }\n            while chars.next_if(|&c| is_word(c)).is_some() {\n                n += 1;\n            }\n            n\n"), ("fn mv_magnitude(", "fn is_word(c: char) -> bool {\n    c.is_alphanumeric() || \"-_\".contains(c)\n}\n\nfn mv_magnitude(")], *IN),
 c("i-mag-early", I, [("    match by {\n        Mvmt::Ch(x) => x,\n        Mvmt::Word => {\n"+MV+"        }\n    }\n", "    if let Mvmt::Ch(x) = by {\n        return x;\n    }\n    let mut count = 0;\n    let mut in_word = false;\n    for c in chars {\n        let word = c.is_alphanumeric() || c == '-' || c == '_';\n        if in_word && !word {\n            break;\n        }\n        in_word |= word;\n        count += 1;\n    }\n    count\n")], *IN),
 c("i-mag-scan", I, (MV, "            chars\n                .scan(false, |seen, c| {\n                    let b = c.is_alphanumeric() || \"-_\".contains(c);\n                    *seen |= b;\n                    (*seen == b).then_some(())\n                })\n                .count()\n"), *IN),
 c("i-mag-slice", I, [("        let n = mv_magnitude(by, self.buf[..self.pos].iter().copied().rev());", "        let n = match by {\n            Mvmt::Ch(x) => x,\n            Mvmt::Word => word_len(self.buf[..self.pos].iter().copied().rev()),\n        };"), ("    match by {\n        Mvmt::Ch(x) => x,\n        Mvmt::Word => {\n"+MV+"        }\n    }\n}\n", "    match by {\n        Mvmt::Ch(x) => x,\n        Mvmt::Word => word_len(chars),\n    }\n}\n\nfn word_len(chars: impl Iterator<Item = char>) -> usize {\n    let mut seen = false;\n    chars\n        .take_while(|&c| {\n            let b = c.is_alphanumeric() || \"-_\".contains(c);\n            seen |= b;\n            seen == b\n        })\n        .count()\n}\n")], *IN),
 c("i-mark", I, [("        self.pos = 0;\n        self.buf_changed = true;", "        self.pos = 0;\n        self.mark();"), ("        self.pos += 1;\n        self.buf_changed = true;", "        self.mark();\n        self.pos += 1;"), ("            self.buf.remove(self.pos);\n            self.buf_changed = true;\n        }\n    }\n\n    /// Removes from _end_", "            self.mark();\n            self.buf.remove(self.pos);\n        }\n    }\n\n    /// Removes from _end_"), ("    pub fn buffer_changed", "    fn mark(&mut self) {\n        self.buf_changed = true;\n    }\n\n    pub fn buffer_changed")], *IN),
 c("i-insat", I, [("        self.buf.insert(self.pos, ch);\n        self.pos += 1;\n        self.buf_changed = true;", "        let at = self.pos;\n        self.buf_changed = true;\n        self.pos = at + 1;\n        self.buf.insert(at, ch);")], *IN),
 c("i-istr-foreach", I, ("        for c in s.chars() {\n            self.insert(c);\n        }", "        s.chars().for_each(|ch| self.insert(ch));"), *IN),
 c("i-istr-inline", I, ("        for c in s.chars() {\n            self.insert(c);\n        }", "        for ch in s.chars() {\n            self.buf.insert(self.pos, ch);\n            self.pos += 1;\n            self.buf_changed = true;\n        }"), *IN),
 c("i-istr-vec", I, ("        for c in s.chars() {\n            self.insert(c);\n        }", "        let chars: Vec<char> = s.chars().collect();\n        for c in chars {\n            self.insert(c);\n        }"), *IN),
 c("i-istr-splitoff", I, ("        for c in s.chars() {\n            self.insert(c);\n        }", "        if s.is_empty() {\n            return;\n        }\n        let tail = self.buf.split_off(self.pos);\n        self.buf.extend(s.chars());\n        self.pos = self.buf.len();\n        self.buf.extend(tail);\n        self.buf_changed = true;"), *IN),
 c("i-bs-match", I, ("        if self.pos > 0 {\n            self.pos -= 1;\n            self.buf.remove(self.pos);\n            self.buf_changed = true;\n        }", "        if self.pos == 0 {\n            return;\n        }\n        self.buf.remove(self.pos - 1);\n        self.pos -= 1;\n        self.buf_changed = true;"), *IN),
 c("i-bs-iflet", I, ("        if self.pos > 0 {\n            self.pos -= 1;\n            self.buf.remove(self.pos);\n            self.buf_changed = true;\n        }", "        match self.pos.checked_sub(1) {\n            Some(prev) => {\n                self.pos = prev;\n                self.delete();\n            }\n            None => (),\n        }"), *IN),
 c("i-dl-ne", I, ("        if self.pos < self.buf.len() {", "        if self.pos != self.buf.len() {"), *IN),
 c("i-at", I, [("            self.pos -= 1;\n            self.buf.remove(self.pos);\n            self.buf_changed = true;", "            self.pos -= 1;\n            self.remove_at(self.pos);"), ("        if self.pos < self.buf.len() {\n            self.buf.remove(self.pos);\n            self.buf_changed = true;\n", "        if self.pos < self.buf.len() {\n            self.remove_at(self.pos);\n"), ("    pub fn move_start", "    fn remove_at(&mut self, at: usize) -> char {\n        self.buf_changed = true;\n        self.buf.remove(at)\n    }\n\n    pub fn move_start")], *IN),
 c("i-buf-chars", I, ("        self.buf[range].iter().collect()", "        self.chars(range).iter().copied().collect()"), *IN),
 c("i-buf-fromiter", I, ("        self.buf[range].iter().collect()", "        String::from_iter(&self.buf[range])"), *IN),
 c("i-buf-extend", I, ("        self.buf[range].iter().collect()", "        let mut s = String::new();\n        s.extend(self.buf[range].iter());\n        s"), *IN),
 c("i-bp-loop", I, ("        self.buf[..self.pos].iter().map(|x| x.len_utf8()).sum()", "        let mut bytes = 0;\n        for ch in self.buf.iter().take(self.pos) {\n            bytes += ch.len_utf8();\n        }\n        bytes"), *IN),
 c("i-bp-ufcs", I, ("        self.buf[..self.pos].iter().map(|x| x.len_utf8()).sum()", "        self.buf[..self.pos].iter().copied().map(char::len_utf8).sum()"), *IN),
 c("i-bp-while", I, ("        self.buf[..self.pos].iter().map(|x| x.len_utf8()).sum()", "        let mut total = 0usize;\n        let mut i = 0;\n        while i < self.pos {\n            total += self.buf[i].len_utf8();\n            i += 1;\n        }\n        total"), *IN),
 c("i-bp-chpos", I, ("        self.buf[..self.pos].iter().map(|x| x.len_utf8()).sum()", "        self.chars(..self.ch_pos()).iter().map(|x| x.len_utf8()).sum()"), *IN),
 c("i-bp-buffer", I, ("        self.buf[..self.pos].iter().map(|x| x.len_utf8()).sum()", "        self.buffer(..self.pos).len()"), *IN),
 c("i-default", I, [("pub struct InputBuffer", "#[derive(Default)]\npub struct InputBuffer"), ("        Self {\n            buf: Vec::new(),\n            pos: 0,\n            buf_changed: false,\n        }", "        Self::default()")], *IN),
 # completions
 c("c-step", C, [(CHN, "        self.highlighted = next_idx(self.highlighted, self.items.len());\n"), (CHP, "        self.highlighted = prev_idx(self.highlighted, self.items.len());\n"), ("fn word_start(", "fn next_idx(idx: Option<usize>, len: usize) -> Option<usize> {\n    match idx {\n        None => Some(0),\n        Some(i) if i + 1 < len => Some(i + 1),\n        Some(_) => None,\n    }\n}\n\nfn prev_idx(idx: Option<usize>, len: usize) -> Option<usize> {\n    match idx {\n        Some(i) => i.checked_sub(1),\n        None => Some(len.saturating_sub(1)),\n    }\n}\n\nfn word_start(")], *CM),
 c("c-last", C, [("let l = Some(self.items.len().saturating_sub(1));\n        self.highlighted = if l == self.highlighted {", "self.highlighted = if self.highlighted == Some(self.last()) {"), ("None => Some(self.items.len().saturating_sub(1)),", "None => Some(self.last()),"), ("    fn cmpl(&self)", "    fn last(&self) -> usize {\n        self.items.len().saturating_sub(1)\n    }\n\n    fn cmpl(&self)")], *CM),
 c("c-rw-replace", C, (RW, "        let new_len = self.cmpl().unwrap_or(&self.replace).chars().count();\n        let len = std::mem::replace(&mut self.ins_len, new_len);\n        (len, self.cmpl().unwrap_or(&self.replace))\n"), *CM),
 c("c-rw-current", C, [(RW, "        let prev = self.ins_len;\n        self.ins_len = self.offered().chars().count();\n        (prev, self.offered())\n    }\n\n    fn offered(&self) -> &str {\n        self.cmpl().unwrap_or(&self.replace)\n")], *CM),
 c("c-rw-iflet", C, (RW, "        let len = self.ins_len;\n        let count = match self.cmpl() {\n            Some(value) => value.chars().count(),\n            None => self.replace.chars().count(),\n        };\n        self.ins_len = count;\n        let with = if let Some(v) = self.cmpl() { v } else { self.replace.as_str() };\n        (len, with)\n"), *CM),
 c("c-cmpl", C, ("        self.highlighted\n            .and_then(|i| self.items.get(i))\n            .map(|c| c.value.as_str())", "        match self.highlighted {\n            Some(i) => self.items.get(i).map(|c| c.value.as_str()),\n            None => None,\n        }"), *CM),
 c("c-cmpl-q", C, ("        self.highlighted\n            .and_then(|i| self.items.get(i))\n            .map(|c| c.value.as_str())", "        let item = self.items.get(self.highlighted?)?;\n        Some(&item.value)"), *CM),
 c("c-ws-rfind", C, (WS, "    let mut pos = 0;\n    let mut idx = 0;\n    for ch in s.chars() {\n        if idx > before {\n            break;\n        }\n        idx += ch.len_utf8();\n        if spliton.contains(ch) {\n            pos = idx;\n        }\n    }\n    pos.min(before)\n"), *CM),
 c("c-ws-last", C, (WS, "    s.char_indices()\n        .take_while(|&(idx, _)| idx <= before)\n        .filter(|&(_, ch)| spliton.contains(ch))\n        .last()\n        .map_or(0, |(idx, ch)| idx + ch.len_utf8())\n        .min(before)\n"), *CM),
 c("c-ws-matches", C, [(WS, "    let mut pos = 0;\n    for (idx, ch) in s.char_indices() {\n        if idx > before {\n            break;\n        }\n        if is_separator(ch) {\n            pos = idx + 1;\n        }\n    }\n    pos.min(before)\n"), ("    let spliton = \" \\t\\r\\n./\\\\\";\n", ""), ("fn word_start(", "fn is_separator(ch: char) -> bool {\n    matches!(ch, ' ' | '\\t' | '\\r' | '\\n' | '.' | '/' | '\\\\')\n}\n\nfn word_start(")], *CM),
 c("c-ws-arr2", C, [("    let spliton = \" \\t\\r\\n./\\\\\";\n", "    const SPLIT_ON: &[char] = &[' ', '\\t', '\\r', '\\n', '.', '/', '\\\\'];\n"), ("if spliton.contains(ch) {", "if SPLIT_ON.contains(&ch) {")], *CM),
 c("c-rq-order2", C, [("        self.reset();\n\n        let input = input_buf.buffer(..);", "        let input = input_buf.buffer(..);"), ("        let req = Request {", "        self.reset();\n\n        let req = Request {")], *CM),
 c("c-rq-setrep", C, [("        self.replace = input[word_pos..cursor_pos].to_string();\n        self.ins_len = self.replace.chars().count();\n        self.start_pos = input_buf.ch_pos().saturating_sub(self.ins_len);\n", "        self.set_replacement(&input[word_pos..cursor_pos], input_buf.ch_pos());\n"), ("    /// Returns if there were items", "    fn set_replacement(&mut self, word: &str, ch_pos: usize) {\n        self.replace = word.to_owned();\n        self.ins_len = word.chars().count();\n        self.start_pos = ch_pos - self.ins_len;\n    }\n\n    /// Returns if there were items")], *CM),
 c("c-rq-len", C, ("        self.replace = input[word_pos..cursor_pos].to_string();\n        self.ins_len = self.replace.chars().count();\n        self.start_pos = input_buf.ch_pos().saturating_sub(self.ins_len);\n", "        let word = &input[word_pos..cursor_pos];\n        let len = word.chars().count();\n        self.start_pos = input_buf.ch_pos().saturating_sub(len);\n        self.ins_len = len;\n        self.replace = String::from(word);\n"), *CM),
 c("c-rq-clear", C, ("        self.replace = input[word_pos..cursor_pos].to_string();\n", "        self.replace.clear();\n        self.replace.push_str(&input[word_pos..cursor_pos]);\n"), *CM),
 c("c-rq-start", C, ("        self.start_pos = input_buf.ch_pos().saturating_sub(self.ins_len);\n", "        self.start_pos = input[..word_pos].chars().count();\n"), *CM),
 c("c-rv-iflet", C, (RV, "        let mut has = false;\n        while let Ok(pkg) = self.rx.try_recv() {\n            if pkg.changeset != self.changeset {\n                continue;\n            }\n            self.items.extend(pkg.items);\n            has = true;\n        }\n        has\n"), *CM),
 c("c-rv-destr", C, (RV, "        let chgset = self.changeset;\n        let mut has = false;\n        for Package { changeset, items } in self.rx.try_iter() {\n            if changeset == chgset {\n                self.items.extend(items);\n                has = true;\n            }\n        }\n        has\n"), *CM),
 c("c-rv-fold", C, (RV, "        let chgset = self.changeset;\n        let items = &mut self.items;\n        self.rx\n            .try_iter()\n            .filter(|x| x.changeset == chgset)\n            .fold(false, |_, pkg| {\n                items.extend(pkg.items);\n                true\n            })\n"), *CM),
 c("c-rv-push", C, (RV, "        let mut has = false;\n        let chgset = self.changeset;\n        for pkg in self.rx.try_iter().filter(|x| x.changeset == chgset) {\n            has = true;\n            for item in pkg.items {\n                self.items.push(item);\n            }\n        }\n        has\n"), *CM),
 c("c-reset-trunc", C, ("        self.items.clear();\n        self.highlighted = None;", "        self.highlighted = None;\n        self.items = Vec::new();"), *CM),
 c("c-reset-take", C, ("        self.items.clear();\n        self.highlighted = None;", "        self.items.truncate(0);\n        self.highlighted.take();"), *CM),
 c("c-has-len", C, ("        !self.items.is_empty()\n", "        self.items.len() > 0\n"), *CM),
 c("c-en-spawn", C, [("        let (txx, rxx) = unbounded();\n        senders.push(txx);\n        let tx = tx.clone();\n        std::thread::Builder::new()\n            .name(\"completion-engine-looper\".into())\n            .spawn(|| loop_completer(rxx, tx, cmpltr))\n            .unwrap();\n", "        senders.push(spawn_looper(tx.clone(), cmpltr));\n"), ("fn loop_completer(", "fn spawn_looper(tx: Sender<Package>, completer: Box<dyn Completer>) -> Sender<Arc<Request>> {\n    let (req_tx, req_rx) = unbounded();\n    std::thread::Builder::new()\n        .name(\"completion-engine-looper\".into())\n        .spawn(move || loop_completer(req_rx, tx, completer))\n        .unwrap();\n    req_tx\n}\n\nfn loop_completer(")], *CM),
 c("c-en-map", C, ("    let mut senders = Vec::with_capacity(completers.len());\n    for cmpltr in completers {\n        let (txx, rxx) = unbounded();\n        senders.push(txx);\n        let tx = tx.clone();\n        std::thread::Builder::new()\n            .name(\"completion-engine-looper\".into())\n            .spawn(|| loop_completer(rxx, tx, cmpltr))\n            .unwrap();\n    }\n", "    let senders: Vec<Sender<Arc<Request>>> = completers\n        .into_iter()\n        .map(|cmpltr| {\n            let (txx, rxx) = unbounded();\n            let tx = tx.clone();\n            std::thread::Builder::new()\n                .name(\"completion-engine-looper\".into())\n                .spawn(move || loop_completer(rxx, tx, cmpltr))\n                .unwrap();\n            txx\n        })\n        .collect();\n"), *CM),
 c("c-en-continue", C, ("        if rx.is_empty() {\n            let req = Arc::new(req);\n            for tx in &senders {\n                tx.send(req.clone()).ok();\n            }\n        }\n", "        if !rx.is_empty() {\n            continue;\n        }\n        let req = Arc::new(req);\n        for tx in senders.iter() {\n            let _ = tx.send(Arc::clone(&req));\n        }\n"), *CM),
 c("c-en-forrecv", C, ("    while let Ok(req) = rx.recv() {\n        if rx.is_empty() {", "    for req in rx.iter() {\n        if rx.is_empty() {"), *CM),
 c("c-en-foreach", C, ("            for tx in &senders {\n                tx.send(req.clone()).ok();\n            }\n", "            senders.iter().for_each(|tx| {\n                tx.send(req.clone()).ok();\n            });\n"), *CM),
 c("c-en-dist", C, [("            let req = Arc::new(req);\n            for tx in &senders {\n                tx.send(req.clone()).ok();\n            }\n", "            dispatch(req, &senders);\n"), ("fn loop_completer(", "fn dispatch(req: Request, senders: &[Sender<Arc<Request>>]) {\n    let req = Arc::new(req);\n    for tx in senders {\n        tx.send(req.clone()).ok();\n    }\n}\n\nfn loop_completer(")], *CM),
 c("c-lc-early", C, (LC, "        let mut items = completer.complete(&req.input, req.cursor_pos, req.word_pos);\n        if items.is_empty() {\n            continue;\n        }\n        items.truncate(CMPL_ITEMS_LIM);\n        let _ = tx.send(Package {\n            changeset: req.changeset,\n            items,\n        });\n"), *CM),
 c("c-lc-iter", C, (LC, "        let items: Vec<Completion> = completer\n            .complete(&req.input, req.cursor_pos, req.word_pos)\n            .into_iter()\n            .take(CMPL_ITEMS_LIM)\n            .collect();\n        if !items.is_empty() {\n            tx.send(Package { changeset: req.changeset, items }).ok();\n        }\n"), *CM),
 c("c-lc-helper", C, [(LC, "        if let Some(pkg) = package(&*completer, &req) {\n            tx.send(pkg).ok();\n        }\n"), ("fn loop_completer(", "fn package(completer: &dyn Completer, req: &Request) -> Option<Package> {\n    let mut items = completer.complete(&req.input, req.cursor_pos, req.word_pos);\n    items.truncate(CMPL_ITEMS_LIM);\n    if items.is_empty() {\n        None\n    } else {\n        Some(Package { changeset: req.changeset, items })\n    }\n}\n\nfn loop_completer(")], *CM),
 c("c-lc-forrx", C, ("    while let Ok(req) = rx.recv() {\n        let Request {", "    for req in rx {\n        let Request {"), *CM),
 c("c-lc-loop", C, ("    while let Ok(req) = rx.recv() {\n        let Request {", "    loop {\n        let req = match rx.recv() {\n            Ok(req) => req,\n            Err(_) => break,\n        };\n        let Request {"), *CM),
 c("c-new-inline", C, ("        spawn_engine(req_rx, pkg_tx, completers);\n", "        std::thread::Builder::new()\n            .name(\"completion-engine\".into())\n            .spawn(move || run_engine(req_rx, pkg_tx, completers))\n            .unwrap();\n"), *CM),
 # events
 c("e-fn", EV, [(EVL, "            .spawn(move || read_events(tx))?;\n"), ("impl Iterator for Events", "fn read_events(tx: Sender<Event>) {\n    loop {\n        if let Ok(ev) = read() {\n            if let Some(ev) = Event::convert_xt(ev) {\n                if tx.send(ev).is_err() {\n                    break;\n                }\n            }\n        }\n    }\n}\n\nimpl Iterator for Events"), ("{unbounded, Receiver}", "{unbounded, Receiver, Sender}")], "E01"),
 c("e-and-then", EV, (EVL, "            .spawn(move || loop {\n                if let Some(ev) = read().ok().and_then(Event::convert_xt) {\n                    if tx.send(ev).is_err() {\n                        return;\n                    }\n                }\n            })?;\n"), "E01"),
 c("e-match", EV, (EVL, "            .spawn(move || loop {\n                let ev = match read() {\n                    Ok(ev) => ev,\n                    Err(_) => continue,\n                };\n                let ev = match Event::convert_xt(ev) {\n                    Some(ev) => ev,\n                    None => continue,\n                };\n                if tx.send(ev).is_err() {\n                    return;\n                }\n            })?;\n"), "E01"),
 c("e-letelse", EV, (EVL, "            .spawn(move || loop {\n                let Ok(ev) = read() else { continue };\n                let Some(ev) = Event::convert_xt(ev) else { continue };\n                match tx.send(ev) {\n                    Ok(()) => (),\n                    Err(_) => break,\n                }\n            })?;\n"), "E01"),
 c("e-send", EV, [(EVL, "            .spawn(move || while forward(&tx) {})?;\n"), ("impl Iterator for Events", "fn forward(tx: &Sender<Event>) -> bool {\n    match read() {\n        Ok(ev) => Event::convert_xt(ev).map_or(true, |ev| tx.send(ev).is_ok()),\n        Err(_) => true,\n    }\n}\n\nimpl Iterator for Events"), ("{unbounded, Receiver}", "{unbounded, Receiver, Sender}")], "E01"),
 c("e-next", EV, ("        self.0.try_recv().ok()", "        match self.0.try_recv() {\n            Ok(ev) => Some(ev),\n            Err(_) => None,\n        }"), "E01"),
 c("e-nextit", EV, ("        self.0.try_recv().ok()", "        self.0.try_iter().next()"), "E01"),
 c("e-cv", EV, (CV, "        match ev {\n            XtEvent::Key(key) => Some(Event::Key {\n                code: key.code,\n                mods: key.modifiers,\n            }),\n            XtEvent::Resize(..) => Some(Event::Resize),\n            XtEvent::Mouse(_) => None,\n        }\n"), "E01"),
 c("e-cv2", EV, (CV, "        let ev = match ev {\n            XtEvent::Key(KeyEvent { code, modifiers: mods }) => Event::Key { code, mods },\n            XtEvent::Resize(_, _) => Event::Resize,\n            _ => return None,\n        };\n        Some(ev)\n"), "E01"),
 c("e-cv3", EV, (CV, "        if let XtEvent::Key(KeyEvent { code, modifiers: mods }) = ev {\n            return Some(Self::Key { code, mods });\n        }\n        matches!(ev, XtEvent::Resize(..)).then_some(Self::Resize)\n"), "E01"),
 c("e-handle", EV, [("        std::thread::Builder::new()\n            .name(\"terminal-event-buffer\".into())", "        let builder = std::thread::Builder::new().name(\"terminal-event-buffer\".into());\n        builder")], "E01"),
 # theme
 c("t-bool", T, ("        let t = theme % 2;\n        debug_assert!(t < 2, \"remember to have a theme for each mod\");\n        match t {\n            0 => self, // default theme,\n            1 => apply::<Light>(self),\n            x => unreachable!(\"{x} theme not handled\"),\n        }", "        if theme % 2 == 0 {\n            self\n        } else {\n            apply::<Light>(self)\n        }"), "T01"),
 c("t-bit", T, ("        let t = theme % 2;\n        debug_assert!(t < 2, \"remember to have a theme for each mod\");\n        match t {\n            0 => self, // default theme,\n            1 => apply::<Light>(self),\n            x => unreachable!(\"{x} theme not handled\"),\n        }", "        match theme & 1 {\n            0 => self,\n            _ => apply::<Light>(self),\n        }"), "T01"),
 c("t-enum", T, [("        let t = theme % 2;\n        debug_assert!(t < 2, \"remember to have a theme for each mod\");\n        match t {\n            0 => self, // default theme,\n            1 => apply::<Light>(self),\n            x => unreachable!(\"{x} theme not handled\"),\n        }", "        match Kind::of(theme) {\n            Kind::Dark => self,\n            Kind::Light => apply::<Light>(self),\n        }"), ("fn apply<Th", "enum Kind {\n    Dark,\n    Light,\n}\n\nimpl Kind {\n    fn of(n: u8) -> Kind {\n        if n % 2 == 0 {\n            Kind::Dark\n        } else {\n            Kind::Light\n        }\n    }\n}\n\nfn apply<Th")], "T01"),
 c("t-map", T, ("    style.fg = style.fg.map(Th::colour);\n    style.bg = style.bg.map(Th::colour);\n", "    for c in [&mut style.fg, &mut style.bg] {\n        *c = c.map(Th::colour);\n    }\n"), "T01"),
 c("t-iflet", T, ("    style.fg = style.fg.map(Th::colour);\n    style.bg = style.bg.map(Th::colour);\n", "    if let Some(bg) = style.bg {\n        style.bg = Some(Th::colour(bg));\n    }\n    if let Some(fg) = style.fg {\n        style.fg = Some(Th::colour(fg));\n    }\n"), "T01"),
 c("t-builder", T, ("    style.fg = style.fg.map(Th::colour);\n    style.bg = style.bg.map(Th::colour);\n", "    if let Some(fg) = style.fg {\n        style = style.fg(Th::colour(fg));\n    }\n    if let Some(bg) = style.bg {\n        style = style.bg(Th::colour(bg));\n    }\n"), "T01"),
 c("t-modorder", T, ("    style = apply_mod(style, Modifier::BOLD, Th::add_bold(), Th::rm_bold());\n    style = apply_mod(\n        style,\n        Modifier::UNDERLINED,\n        Th::add_underline(),\n        Th::rm_underline(),\n    );\n", "    let mods = [\n        (Modifier::UNDERLINED, Th::add_underline(), Th::rm_underline()),\n        (Modifier::BOLD, Th::add_bold(), Th::rm_bold()),\n    ];\n    for (m, add, rm) in mods {\n        style = apply_mod(style, m, add, rm);\n    }\n"), "T01"),
 c("t-struct", T, ("    style.fg = style.fg.map(Th::colour);\n    style.bg = style.bg.map(Th::colour);\n", "    style = Style {\n        fg: style.fg.map(Th::colour),\n        bg: style.bg.map(Th::colour),\n        ..style\n    };\n"), "T01"),
 c("t-ifs", T, ("        match style.add_modifier.contains(m) {\n            true if rm => style.remove_modifier(m),\n            false if add => style.add_modifier(m),\n            _ => style,\n        }", "        let has = style.add_modifier.contains(m);\n        if has && rm {\n            style.remove_modifier(m)\n        } else if !has && add {\n            style.add_modifier(m)\n        } else {\n            style\n        }"), "T01"),
 c("t-cmap", T, ("        use Color::*;\n\n        match c {\n            White => Black,\n            Magenta => LightMagenta,\n            LightCyan => Cyan,\n            LightRed => Red,\n            Yellow => Rgb(210, 105, 30),\n            LightYellow => Rgb(255, 140, 0),\n            // help and completions text,\n            Rgb(192, 192, 192) => Rgb(55, 55, 55),\n            x => x,\n        }", "        const MAP: [(Color, Color); 7] = [\n            (Color::White, Color::Black),\n            (Color::Magenta, Color::LightMagenta),\n            (Color::LightCyan, Color::Cyan),\n            (Color::LightRed, Color::Red),\n            (Color::Yellow, Color::Rgb(210, 105, 30)),\n            (Color::LightYellow, Color::Rgb(255, 140, 0)),\n            (Color::Rgb(192, 192, 192), Color::Rgb(55, 55, 55)),\n        ];\n        MAP.iter()\n            .find(|(from, _)| *from == c)\n            .map(|&(_, to)| to)\n            .unwrap_or(c)"), "T01"),
 c("t-cifs", T, ("            Rgb(192, 192, 192) => Rgb(55, 55, 55),\n            x => x,\n", "            Rgb(r, g, b) if (r, g, b) == (192, 192, 192) => Rgb(55, 55, 55),\n            x => x,\n"), "T01"),
 c("t-cgrey", T, ("            Rgb(192, 192, 192) => Rgb(55, 55, 55),\n            x => x,\n", "            GREY => Rgb(55, 55, 55),\n            x => x,\n".replace("GREY", "Rgb(g, g2, g3) if g == 192 && g2 == g && g3 == g")), "T01"),
 # app
 c("a-attr", A, ("#[clap(short, long)]", "#[clap(short = 'q', long = \"quiet\")]"), "A01"),
 c("a-merge", A, ("#[clap(name = \"ogma\")]\n#[clap(author = \"Kurt Lawrence <kurtlawrence92@gmail.com>\")]\n#[clap(about = \"Scripting language for manipulating tabular data\")]", "#[clap(\n    name = \"ogma\",\n    author = \"Kurt Lawrence <kurtlawrence92@gmail.com>\",\n    about = \"Scripting language for manipulating tabular data\"\n)]"), "A01"),
 c("a-import", A, ("use clap::*;", "use clap::{CommandFactory, Parser};"), "A01"),
 c("a-valname", A, ("    #[clap(long)]\n", "    #[clap(long, value_name = \"GLOB\")]\n"), "A01"),
]
