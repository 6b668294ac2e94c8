F="ogma-shell/interface/history.rs"; P=["H01"]
back_old='''        self.idx = match self.idx {
            Some(0) => None,
            Some(x) => Some(x.saturating_sub(1)),
            None => Some(self.items.len().saturating_sub(1)),
        };'''
fwd_old='''        let l = Some(self.items.len().saturating_sub(1));
        self.idx = if self.idx == l {
            None
        } else if let Some(x) = self.idx {
            Some(x + 1)
        } else {
            Some(0)
        };'''
add_old='''        while self.items.len() >= LIM {
            self.items.remove(0);
        }
        self.items.push(line);
        self.idx = None;'''
CASES=[
 ("lim10","bad",F,[("= 100","= 10")],P),
 ("lim101","bad",F,[(">= LIM","> LIM")],P),
 ("remove1","bad",F,[("remove(0)","remove(1)")],P),
 ("dropnewest","bad",F,[("self.items.remove(0);","self.items.pop();")],P),
 ("swapremove","bad",F,[("remove(0)","swap_remove(0)")],P),
 ("noreset","bad",F,[("self.items.push(line);\n        self.idx = None;","self.items.push(line);")],P),
 ("reset-only-when-full","bad",F,[("self.items.push(line);\n        self.idx = None;","let full = self.items.len() >= 99; self.items.push(line); if !full { self.idx = None; }")],P),
 ("back-none0","bad",F,[("Some(0) => None","Some(0) => Some(0)")],P),
 ("back-2","bad",F,[("x.saturating_sub(1)","x.saturating_sub(2)")],P),
 ("fwd-nowrap","bad",F,[("if self.idx == l {","if false && self.idx == l {")],P),
 ("skip-dup","bad",F,[("self.items.push(line);","if self.items.last() != Some(&line) { self.items.push(line); }")],P),
 ("trim","bad",F,[("self.items.push(line);","self.items.push(line.trim().to_string());")],P),
 ("fwd-empty-some1","bad",F,[("Some(x + 1)","Some(x + 1 + (x / 50))")],P),
 ("current-first","bad",F,[("self.items.get(i)","self.items.get(i.min(98))")],P),
 ("back-loses","bad",F,[("None => Some(self.items.len().saturating_sub(1)),","None => { if self.items.len() == 100 { self.items.pop(); } Some(self.items.len().saturating_sub(1)) }")],P),
 # refactors
 ("r-comment","ok",F,[("const LIM: usize = 100;","const LIM: usize = 100; // lim\n")],P),
 ("r-helper","ok",F,[(back_old,"        self.idx = self.prev_idx();"),("    /// Reset history","    fn last(&self) -> usize { self.items.len().saturating_sub(1) }\n    fn prev_idx(&self) -> Option<usize> { match self.idx { Some(0) => None, Some(x) => Some(x - 1), None => Some(self.last()) } }\n    /// Reset history")],P),
 ("r-if","ok",F,[(add_old,"        if self.items.len() == LIM { self.items.remove(0); }\n        self.idx = None;\n        self.items.push(line);")],P),
 ("r-drain","ok",F,[(add_old,"        self.items.push(line);\n        if self.items.len() > LIM { let n = self.items.len() - LIM; self.items.drain(..n); }\n        self.idx.take();")],P),
 ("r-drain2","ok",F,[(add_old,"        let excess = (self.items.len() + 1).saturating_sub(LIM);\n        self.items.drain(..excess);\n        self.items.push(line);\n        self.idx.take();")],P),
 ("r-loop","ok",F,[(add_old,"        loop { if self.items.len() < LIM { break; } let _ = self.items.remove(0); }\n        self.items.push(line);\n        self.idx = None;")],P),
 ("r-checked","ok",F,[(back_old,"        self.idx = match self.idx { Some(x) => x.checked_sub(1), None => Some(self.items.len().saturating_sub(1)) };")],P),
 ("r-andthen","ok",F,[(back_old,"        self.idx = if let Some(x) = self.idx { if x == 0 { None } else { Some(x - 1) } } else { self.items.len().checked_sub(1) };")],P),
 ("r-fwd-match","ok",F,[(fwd_old,"        self.idx = match self.idx { None => Some(0), Some(x) if x + 1 >= self.items.len() => None, Some(x) => Some(x + 1) };")],P),
 ("r-fwd-map","ok",F,[(fwd_old,"        let next = self.idx.map_or(0, |x| x + 1);\n        self.idx = if next < self.items.len() { Some(next) } else { None };")],P),
 ("r-fwd-filter","ok",F,[(fwd_old,"        let next = self.idx.map(|x| x + 1).unwrap_or(0);\n        let n = self.items.len();\n        self.idx = Some(next).filter(|x| *x < n);")],P),
 ("r-fwd-then","ok",F,[(fwd_old,"        let next = match self.idx { Some(i) => i + 1, None => 0 };\n        self.idx = (next < self.items.len()).then(|| next);")],P),
 ("r-current","ok",F,[("self.idx.and_then(|i| self.items.get(i)).map(|x| x.as_str())","{ let i = self.idx?; let s = self.items.get(i)?; Some(s.as_str()) }")],P),
 ("r-current2","ok",F,[("self.idx.and_then(|i| self.items.get(i)).map(|x| x.as_str())","match self.idx { Some(i) if i < self.items.len() => Some(&self.items[i]), _ => None }")],P),
 ("r-current3","ok",F,[("self.idx.and_then(|i| self.items.get(i)).map(|x| x.as_str())","self.items.iter().nth(self.idx?).map(String::as_str)")],P),
 ("r-current4","ok",F,[("self.idx.and_then(|i| self.items.get(i)).map(|x| x.as_str())","self.items.get(self.idx?).map(String::as_ref)")],P),
 ("r-current5","ok",F,[("self.idx.and_then(|i| self.items.get(i)).map(|x| x.as_str())","self.idx.and_then(|i| self.items.get(i).map(std::ops::Deref::deref))")],P),
 ("r-vecdeque","ok",F,[("items: Vec<String>","items: std::collections::VecDeque<String>"),("items: Vec::new()","items: std::collections::VecDeque::new()"),("self.items.remove(0)","self.items.pop_front()"),("push(line)","push_back(line)")],P),
 ("r-while-for","ok",F,[(add_old,"        let n = self.items.len().saturating_sub(LIM - 1);\n        for _ in 0..n { self.items.remove(0); }\n        self.items.push(line);\n        self.idx = None;")],P),
 ("r-splitoff","ok",F,[(add_old,"        if self.items.len() >= LIM { let k = self.items.len() - LIM + 1; self.items = self.items.split_off(k); }\n        self.items.push(line);\n        self.idx = None;")],P),
 ("r-rotate","ok",F,[(add_old,"        self.idx = None;\n        if self.items.len() >= LIM {\n            self.items.rotate_left(1);\n            if let Some(last) = self.items.last_mut() { *last = line; }\n        } else { self.items.push(line); }")],P),
 ("r-mem","ok",F,[(add_old,"        let old = std::mem::take(&mut self.items);\n        let skip = old.len().saturating_sub(LIM - 1);\n        self.items = old.into_iter().skip(skip).chain(std::iter::once(line)).collect();\n        self.idx = None;")],P),
 ("r-guardlen","ok",F,[(back_old,"        let len = self.items.len();\n        self.idx = match self.idx {\n            Some(i) if i > 0 => Some(i - 1),\n            Some(_) => None,\n            None if len == 0 => None,\n            None => Some(len - 1),\n        };")],P),
 ("r-mod","ok",F,[(fwd_old,"        let n = self.items.len() + 1;\n        let cur = self.idx.map_or(n - 1, |i| i);\n        let next = (cur + 1) % n;\n        self.idx = if next + 1 == n { None } else { Some(next) };")],P),
]
