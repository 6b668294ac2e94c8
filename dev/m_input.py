F="ogma-shell/interface/input.rs"; E=["I01"]; B=["I02"]; M=["I03"]; A=["I01","I02","I03"]
mag='''            let mut seen = false;
            chars
                .take_while(|&c| {
                    let b = c.is_alphanumeric() || "-_".contains(c);
                    seen |= b;
                    seen == b
                })
                .count()'''
ml='''        let n = mv_magnitude(by, self.buf[..self.pos].iter().copied().rev());
        self.pos = self.pos.saturating_sub(n);'''
mr='''        let n = mv_magnitude(by, self.buf[self.pos..].iter().copied());
        self.pos = std::cmp::min(self.pos.saturating_add(n), self.buf.len());'''
bp="self.buf[..self.pos].iter().map(|x| x.len_utf8()).sum()"
ins='''        self.buf.insert(self.pos, ch);
        self.pos += 1;
        self.buf_changed = true;'''
istr='''        for c in s.chars() {
            self.insert(c);
        }'''
bs='''        if self.pos > 0 {
            self.pos -= 1;
            self.buf.remove(self.pos);
            self.buf_changed = true;
        }'''
dl='''        if self.pos < self.buf.len() {
            self.buf.remove(self.pos);
            self.buf_changed = true;
        }'''
isw='fn is_word(c: char) -> bool { c.is_alphanumeric() || c == \'-\' || c == \'_\' }\n\nfn mv_magnitude('
CASES=[
 # --- refactorings
 ("ok-mag-for","ok",F,[(mag,'''let mut seen = false; let mut n = 0;
            for c in chars { let b = c.is_alphanumeric() || "-_".contains(c); if seen && !b { break; } seen |= b; n += 1; }
            n''')],M),
 ("ok-mag-while","ok",F,[("chars: impl","mut chars: impl"),(mag,'''let mut seen = false; let mut n = 0;
            while let Some(c) = chars.next() { let b = c.is_alphanumeric() || c == '-' || c == '_'; if b { seen = true; } else if seen { break; } n += 1; }
            n''')],M),
 ("ok-mag-loop","ok",F,[("chars: impl","mut chars: impl"),(mag,'''let mut in_word = false; let mut n = 0usize;
            loop { match chars.next() { None => return n, Some(c) => { match (is_word(c), in_word) { (true, _) => in_word = true, (false, true) => return n, (false, false) => {} } n += 1; } } }'''),("fn mv_magnitude(",isw)],M),
 ("ok-mag-helper","ok",F,[('let b = c.is_alphanumeric() || "-_".contains(c);','let b = is_word(c);'),("fn mv_magnitude(",isw)],M),
 ("ok-mag-matches","ok",F,[('let b = c.is_alphanumeric() || "-_".contains(c);',"let b = matches!(c, '-' | '_') || c.is_alphanumeric();")],M),
 ("ok-mag-peek","ok",F,[(mag,'''let mut it = chars.peekable(); let mut n = 0;
            while it.next_if(|c| !is_word(*c)).is_some() { n += 1; }
            while it.next_if(|c| is_word(*c)).is_some() { n += 1; }
            n'''),("fn mv_magnitude(",isw)],M),
 ("ok-mag-vec","ok",F,[(mag,'''let cs: Vec<char> = chars.collect(); let mut i = 0;
            while i < cs.len() && !is_word(cs[i]) { i += 1; }
            while i < cs.len() && is_word(cs[i]) { i += 1; }
            i'''),("fn mv_magnitude(",isw)],M),
 ("ok-mag-position","ok",F,[(mag,'''let cs: Vec<char> = chars.collect();
            let start = cs.iter().position(|c| is_word(*c)).unwrap_or(cs.len());
            start + cs[start..].iter().take_while(|c| is_word(**c)).count()'''),("fn mv_magnitude(",isw)],M),
 ("ok-mag-fold","ok",F,[("chars: impl","mut chars: impl"),(mag,'''let mut seen = false;
            let mut count = 0;
            while let Some(c) = chars.next() {
                let b = is_word(c);
                seen = seen || b;
                if seen != b { break; }
                count += 1;
            }
            count'''),("fn mv_magnitude(",isw)],M),
 ("ok-mag-contains-arr","ok",F,[('"-_".contains(c)',"['-', '_'].contains(&c)")],M),
 ("ok-mag-any","ok",F,[('"-_".contains(c)',"\"-_\".chars().any(|x| x == c)")],M),
 ("ok-mag-fnmut","ok",F,[(mag,'''let mut seen = false;
            let pred = |c: &char| { let b = is_word(*c); seen = seen | b; !seen || b };
            chars.take_while(pred).count()'''),("fn mv_magnitude(",isw)],M),
 ("ok-ml-if","ok",F,[(ml,'''let n = mv_magnitude(by, self.buf[..self.pos].iter().rev().copied());
        if n > self.pos { self.pos = 0 } else { self.pos -= n }''')],M),
 ("ok-ml-checked","ok",F,[(ml,'''let n = mv_magnitude(by, self.buf.iter().take(self.pos).rev().cloned());
        self.pos = self.pos.checked_sub(n).unwrap_or(0);''')],M),
 ("ok-ml-min","ok",F,[(ml,'''let n = mv_magnitude(by, self.chars(..self.pos).iter().copied().rev());
        self.pos -= n.min(self.pos);''')],M),
 ("ok-mr-skip","ok",F,[(mr,'''let n = mv_magnitude(by, self.buf.iter().skip(self.pos).copied());
        let rest = self.buf.len() - self.pos;
        self.pos += n.min(rest);''')],M),
 ("ok-mr-order","ok",F,[(mr,'''let len = self.buf.len();
        let n = mv_magnitude(by, self.buf[self.pos..len].iter().copied());
        self.pos = match self.pos.checked_add(n) { Some(p) if p <= len => p, _ => len };''')],M),
 ("ok-mr-inline","ok",F,[(mr,'''let n = match by { Mvmt::Ch(n) => n, w => mv_magnitude(w, self.buf[self.pos..].iter().copied()) };
        self.pos = self.pos.saturating_add(n).min(self.buf.len());''')],M),
 ("ok-bp-fold","ok",F,[(bp,"self.buf[..self.pos].iter().fold(0, |a, c| a + c.len_utf8())")],B),
 ("ok-bp-for","ok",F,[(bp,"let mut n = 0; for c in &self.buf[..self.pos] { n += c.len_utf8(); } n")],B),
 ("ok-bp-take","ok",F,[(bp,"self.buf.iter().take(self.pos).map(|c| c.len_utf8()).sum::<usize>()")],B),
 ("ok-bp-string","ok",F,[(bp,"self.buffer(..self.pos).len()")],B),
 ("ok-bp-idx","ok",F,[(bp,"let mut n = 0; let mut i = 0; while i < self.pos { n += self.buf[i].len_utf8(); i += 1; } n")],B),
 ("ok-bp-range","ok",F,[(bp,"(0..self.pos).map(|i| self.buf[i].len_utf8()).sum()")],B),
 ("ok-bp-copied","ok",F,[(bp,"self.buf.iter().copied().take(self.pos).map(char::len_utf8).sum()")],B),
 ("ok-bp-split","ok",F,[(bp,"let (before, _) = self.buf.split_at(self.pos); before.iter().map(|c| c.len_utf8()).sum()")],B),
 ("ok-bp-string2","ok",F,[(bp,"self.buf[..self.pos].iter().collect::<String>().len()")],B),
 ("ok-ins-order","ok",F,[(ins,"self.buf_changed = true; let at = self.pos; self.buf.insert(at, ch); self.pos = at + 1;")],A),
 ("ok-ins-push","ok",F,[(ins,"if self.pos == self.buf.len() { self.buf.push(ch); } else { self.buf.insert(self.pos, ch); } self.pos += 1; self.buf_changed = true;")],E),
 ("ok-ins-splice","ok",F,[(ins,"let tail = self.buf.split_off(self.pos); self.buf.push(ch); self.buf.extend(tail); self.pos += 1; self.buf_changed = true;")],E),
 ("ok-istr-each","ok",F,[(istr,"s.chars().for_each(|c| self.insert(c));")],E),
 ("ok-istr-splice","ok",F,[(istr,"if s.is_empty() { return; } let n = s.chars().count(); let at = self.pos; self.buf.splice(at..at, s.chars()); self.pos += n; self.buf_changed = true;")],E),
 ("ok-istr-enum","ok",F,[(istr,"let at = self.pos; for (i, c) in s.chars().enumerate() { self.buf.insert(at + i, c); self.pos += 1; self.buf_changed = true; }")],E),
 ("ok-istr-while","ok",F,[(istr,"let mut cs = s.chars(); while let Some(c) = cs.next() { self.insert(c) }")],E),
 ("ok-istr-tail","ok",F,[(istr,"let tail: Vec<char> = self.buf.drain(self.pos..).collect(); for c in s.chars() { self.buf.push(c); self.pos += 1; self.buf_changed = true; } self.buf.extend(tail);")],E),
 ("ok-bs-early","ok",F,[(bs,"if self.pos == 0 { return; } let at = self.pos - 1; self.buf.remove(at); self.pos = at; self.buf_changed = true;")],E),
 ("ok-bs-checked","ok",F,[(bs,"if let Some(at) = self.pos.checked_sub(1) { self.buf.remove(at); self.pos = at; self.buf_changed = true; }")],E),
 ("ok-bs-delete","ok",F,[(bs,"if self.pos > 0 { self.pos -= 1; self.delete(); }")],E),
 ("ok-bs-drain","ok",F,[(bs,"if self.pos > 0 { self.buf.drain(self.pos - 1..self.pos); self.pos -= 1; self.buf_changed = true; }")],E),
 ("ok-dl-get","ok",F,[(dl,"if self.buf.get(self.pos).is_some() { self.buf.remove(self.pos); self.buf_changed = true; }")],E),
 ("ok-dl-early","ok",F,[(dl,"if self.pos >= self.buf.len() { return; } let _ = self.buf.remove(self.pos); self.buf_changed = true;")],E),
 ("ok-helper-remove","ok",F,[(bs,"if self.pos > 0 { self.pos -= 1; self.remove_at_cursor(); }"),(dl,"if self.pos < self.buf.len() { self.remove_at_cursor(); }"),("    pub fn move_start","    fn remove_at_cursor(&mut self) { self.buf.remove(self.pos); self.buf_changed = true; }\n\n    pub fn move_start")],A),
 ("ok-clear-new","ok",F,[("self.buf.clear();\n        self.pos = 0;\n        self.buf_changed = true;","*self = Self { buf_changed: true, ..Self::new() };")],E),
 ("ok-clear-trunc","ok",F,[("self.buf.clear();\n        self.pos = 0;","self.pos = 0;\n        self.buf.truncate(0);")],E),
 ("ok-clear-take","ok",F,[("self.buf.clear();\n        self.pos = 0;","let _ = std::mem::take(&mut self.buf);\n        self.move_start();")],E),
 ("ok-buffer-str","ok",F,[("self.buf[range].iter().collect()","self.chars(range).iter().copied().collect::<String>()")],E),
 ("ok-buffer-for","ok",F,[("self.buf[range].iter().collect()","let mut s = String::new(); for c in &self.buf[range] { s.push(*c); } s")],E),
 ("ok-reset-replace","ok",F,[("self.buf_changed = false;\n    }","let _ = std::mem::replace(&mut self.buf_changed, false);\n    }")],E),
 # --- bugs
 ("bp-chars","bad",F,[(bp,"self.buf[..self.pos].iter().count()")],B),
 ("bp-all","bad",F,[(bp,"self.buf.iter().map(|x| x.len_utf8()).sum()")],B),
 ("bp-utf16","bad",F,[("x.len_utf8()","x.len_utf16()")],B),
 ("bp-ascii","bad",F,[("x.len_utf8()","if x.is_ascii() { 1 } else { 2 }")],B),
 ("bp-skip","bad",F,[(bp,"self.buf.iter().skip(1).take(self.pos).map(|x| x.len_utf8()).sum()")],B),
 ("ins-nochange","bad",F,[(ins,"self.buf.insert(self.pos, ch); self.pos += 1; self.buf_changed |= self.pos > 1;")],E),
 ("ins-append","bad",F,[("self.buf.insert(self.pos, ch);","if self.pos + 1 >= self.buf.len() { self.buf.push(ch); } else { self.buf.insert(self.pos, ch); }")],E),
 ("ins-ctrl","bad",F,[(ins,"if ch == '\\u{7}' { return; } "+ins)],E),
 ("istr-rev","bad",F,[("s.chars() {\n            self.insert(c)","s.chars().rev() {\n            self.insert(c)")],E),
 ("istr-bytes","bad",F,[(istr,"let at = self.pos; let n = s.len(); self.buf.splice(at..at, s.chars()); self.pos += n; self.buf_changed = true;")],E),
 ("istr-limit","bad",F,[("s.chars() {\n            self.insert(c)","s.chars().take(4096) {\n            self.insert(c)")],E),
 ("istr-cursor","bad",F,[(istr,"let at = self.pos; for c in s.chars() { self.buf.insert(self.pos, c); self.pos += 1; self.buf_changed = true; } if s.len() > 64 { self.pos = at; }")],E),
 ("bs-nochange","bad",F,[(bs,"if self.pos > 0 { self.pos -= 1; self.buf.remove(self.pos); self.buf_changed = !self.buf.is_empty(); }")],E),
 ("bs-wrong","bad",F,[(bs,"if self.pos > 0 { self.buf.remove(self.pos.min(self.buf.len() - 1)); self.pos -= 1; self.buf_changed = true; }")],E),
 ("bs-swap","bad",F,[("self.pos -= 1;\n            self.buf.remove(self.pos);","self.pos -= 1;\n            self.buf.swap_remove(self.pos);")],E),
 ("dl-last","bad",F,[("self.pos < self.buf.len()","self.pos + 1 < self.buf.len()")],E),
 ("dl-panic","bad",F,[("self.pos < self.buf.len()","self.pos <= self.buf.len() && !self.buf.is_empty()")],E),
 ("clear-nopos","bad",F,[("self.buf.clear();\n        self.pos = 0;","self.buf.clear();\n        self.pos = self.pos.min(1);")],E),
 ("clear-noflag","bad",F,[("self.buf.clear();\n        self.pos = 0;\n        self.buf_changed = true;","self.buf_changed = !self.buf.is_empty();\n        self.buf.clear();\n        self.pos = 0;")],E),
 ("mv-flag","bad",F,[("pub fn move_start(&mut self) {","pub fn move_start(&mut self) {\n        self.buf_changed = true;")],M),
 ("start-one","bad",F,[("pub fn move_start(&mut self) {\n        self.pos = 0;","pub fn move_start(&mut self) {\n        self.pos = if self.pos > 1000 { 1 } else { 0 };")],M),
 ("ml-clamp","bad",F,[(ml,"let n = mv_magnitude(by, self.buf[..self.pos].iter().copied().rev()); if n <= self.pos { self.pos -= n; }")],M),
 ("mr-clamp","bad",F,[("std::cmp::min(self.pos.saturating_add(n), self.buf.len())","std::cmp::min(self.pos.saturating_add(n), self.buf.len().max(1))")],M),
 ("mr-past","bad",F,[("std::cmp::min(self.pos.saturating_add(n), self.buf.len())","std::cmp::min(self.pos.wrapping_add(n), self.buf.len())")],M),
 ("ml-norev","bad",F,[(".iter().copied().rev());",".iter().copied());")],M),
 ("mag-alpha","bad",F,[("c.is_alphanumeric()","c.is_alphabetic()")],M),
 ("mag-ascii","bad",F,[("c.is_alphanumeric()","c.is_ascii_alphanumeric()")],M),
 ("mag-dot","bad",F,[('"-_"','"-_."')],M),
 ("mag-nodash","bad",F,[('"-_"','"_"')],M),
 ("mag-off","bad",F,[(".count()",".count() + seen as usize")],M),
 ("mag-digits","bad",F,[("seen |= b;","seen |= b && !c.is_numeric();")],M),
 ("mag-cap","bad",F,[("chars\n                .take_while","chars.take(256)\n                .take_while")],M),
 ("mag-ch","bad",F,[("Mvmt::Ch(x) => x,","Mvmt::Ch(x) => x.min(1 << 16),")],M),
]
