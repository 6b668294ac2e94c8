F = "ogma-shell/interface/input.rs"; H = "ogma-shell/interface/history.rs"; C = "ogma-shell/interface/completions.rs"; E = "ogma-shell/interface/events.rs"
def c(n, ex, f, e, *p): return (n, ex, f, e if isinstance(e, list) else [e], list(p))
MAG = """            let mut seen = false;
            chars
                .take_while(|&c| {
                    let b = c.is_alphanumeric() || "-_".contains(c);
                    seen |= b;
                    seen == b
                })
                .count()
"""
WS = """    let mut pos = 0;
    for (idx, ch) in s.char_indices() {
        if idx > before {
            break;
        }

        if spliton.contains(ch) {
            pos = idx + ch.len_utf8();
        }
    }
"""
FULL = """        while self.items.len() >= LIM {
            self.items.remove(0);
        }
"""
CASES = [
 c("ok-l-loop", "ok", F, (MAG, """            let mut chars = chars;
            let (mut n, mut seen) = (0, false);
            loop {
                match chars.next() {
                    Some(c) if c.is_alphanumeric() || "-_".contains(c) => seen = true,
                    Some(_) if !seen => (),
                    _ => break n,
                }
                n += 1;
            }
"""), "I03"),
 c("ok-l-while", "ok", F, (MAG, """            let mut chars = chars;
            let mut seen = false;
            let mut n = 0;
            while let Some(c) = chars.next() {
                let b = c.is_alphanumeric() || "-_".contains(c);
                if seen && !b {
                    break;
                }
                seen = seen || b;
                n += 1;
            }
            n
"""), "I03"),
 c("ok-l-phases", "ok", F, (MAG, """            let word = |c: char| c.is_alphanumeric() || "-_".contains(c);
            let mut n = 0;
            let mut in_word = false;
            for c in chars {
                match (in_word, word(c)) {
                    (true, false) => return n,
                    (false, true) => in_word = true,
                    _ => {}
                }
                n += 1;
            }
            n
"""), "I03"),
 c("l-endless", "bad", F, (MAG, """            let mut chars = chars;
            let (mut n, mut seen) = (0usize, false);
            loop {
                match chars.next() {
                    Some(c) if c.is_alphanumeric() || "-_".contains(c) => seen = true,
                    Some(_) if seen => break n,
                    None if seen => break n,
                    None => continue,
                    _ => (),
                }
                n += 1;
            }
"""), "I03"),
 c("ok-l-idx", "ok", C, (WS, """    let mut pos = 0;
    let mut iter = s.char_indices();
    while let Some((idx, ch)) = iter.next() {
        if idx > before {
            break;
        }
        if !spliton.contains(ch) {
            continue;
        }
        pos = idx + ch.len_utf8();
    }
"""), "C01", "C03"),
 c("ok-l-tw", "ok", C, (WS, """    let mut pos = 0;
    for (idx, ch) in s.char_indices().take_while(|(idx, _)| *idx <= before) {
        if spliton.contains(ch) {
            pos = idx + ch.len_utf8();
        }
    }
"""), "C01"),
 c("ok-l-h-loop", "ok", H, (FULL, """        loop {
            if self.items.len() < LIM {
                break;
            }
            self.items.remove(0);
        }
"""), "H01"),
 c("ok-l-h-drain", "ok", H, (FULL, """        if self.items.len() >= LIM {
            let over = self.items.len() - LIM + 1;
            self.items.drain(..over);
        }
"""), "H01"),
 c("l-h-hang", "bad", H, (FULL, """        while self.items.len() >= LIM {
            let over = self.items.len() - LIM;
            self.items.drain(..over);
        }
"""), "H01"),
 c("l-h-hang-idx", "bad", H, (FULL, """        while self.items.len() >= LIM {
            if self.idx == Some(0) {
                continue;
            }
            self.items.remove(0);
        }
"""), "H01"),
 c("ok-i-cache", "ok", F, [("    pos: usize,\n", "    pos: usize,\n    /// Times the text was edited.\n    edits: u64,\n"), ("            buf_changed: false,\n", "            buf_changed: false,\n            edits: 0,\n"), ("        self.buf_changed = true;\n", "        self.buf_changed = true;\n        self.edits = self.edits.wrapping_add(1);\n")], "I01", "I02", "I03"),
]
