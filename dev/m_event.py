E = "ogma-shell/interface/events.rs"; T = "ogma-shell/interface/theme.rs"
LOOP = '''            .spawn(move || loop {
                while let Ok(ev) = read() {
                    if let Some(ev) = Event::convert_xt(ev) {
                        if tx.send(ev).is_err() {
                            return; // the receiver has been dropped
                        }
                    }
                }
            })?;'''
def loop(n, ex, new, pr=["E01"]): return (n, ex, E, [(LOOP, new)], pr)
CONV = '''        match ev {
            XtEvent::Key(KeyEvent { code, modifiers }) => Some(Event::Key {
                code,
                mods: modifiers,
            }),
            XtEvent::Resize(_, _) => Some(Event::Resize),
            _ => None,
        }'''
def conv(n, ex, new): return (n, ex, E, [(CONV, new)], ["E01"])
PAL = '''        match c {
            White => Black,
            Magenta => LightMagenta,
            LightCyan => Cyan,
            LightRed => Red,
            Yellow => Rgb(210, 105, 30),
            LightYellow => Rgb(255, 140, 0),
            // help and completions text,
            Rgb(192, 192, 192) => Rgb(55, 55, 55),
            x => x,
        }'''
TH = '''        let t = theme % 2;
        debug_assert!(t < 2, "remember to have a theme for each mod");
        match t {
            0 => self, // default theme,
            1 => apply::<Light>(self),
            x => unreachable!("{x} theme not handled"),
        }'''
CASES = [
 loop("e-helper", "ok", '''            .spawn(move || forward(tx))?;
        fn forward(tx: ::libs::crossbeam::channel::Sender<Event>) {
            loop {
                let ev = match read() { Ok(e) => e, Err(_) => continue };
                let ev = match Event::convert_xt(ev) { Some(e) => e, None => continue };
                if let Err(_) = tx.send(ev) { break; }
            }
        }'''),
 loop("e-label", "ok", '''            .spawn(move || 'outer: loop {
                while let Ok(ev) = read() {
                    if let Some(ev) = Event::convert_xt(ev) {
                        if tx.send(ev).is_err() { break 'outer; }
                    }
                }
            })?;'''),
 loop("e-iter", "ok", '''            .spawn(move || {
                let mut alive = true;
                while alive {
                    let ev = read().ok().and_then(Event::convert_xt);
                    if let Some(ev) = ev { alive = tx.send(ev).is_ok(); }
                }
            })?;'''),
 loop("e-orig", "bad", '''            .spawn(move || loop {
                while let Ok(ev) = read() {
                    if let Some(ev) = Event::convert_xt(ev) {
                        if tx.send(ev).is_err() { break; }
                    }
                }
            })?;'''),
 loop("e-enderr", "bad", '''            .spawn(move || {
                while let Ok(ev) = read() {
                    if let Some(ev) = Event::convert_xt(ev) {
                        if tx.send(ev).is_err() { break; }
                    }
                }
            })?;'''),
 loop("e-ignore", "bad", '''            .spawn(move || loop {
                while let Ok(ev) = read() {
                    if let Some(ev) = Event::convert_xt(ev) { tx.send(ev).ok(); }
                }
            })?;'''),
 loop("e-endother", "bad", '''            .spawn(move || loop {
                while let Ok(ev) = read() {
                    match Event::convert_xt(ev) { Some(ev) => if tx.send(ev).is_err() { return; }, None => return }
                }
            })?;'''),
 loop("e-dup", "bad", '''            .spawn(move || loop {
                while let Ok(ev) = read() {
                    if let Some(ev) = Event::convert_xt(ev) {
                        if matches!(ev, Event::Resize) { tx.send(ev).ok(); }
                        if tx.send(ev).is_err() { return; }
                    }
                }
            })?;'''),
 loop("e-debounce", "bad", '''            .spawn(move || {
                let mut last = None;
                loop {
                while let Ok(ev) = read() {
                    if let Some(ev) = Event::convert_xt(ev) {
                        if ev == Event::Resize && last == Some(Event::Resize) { continue; }
                        last = Some(ev);
                        if tx.send(ev).is_err() { return; }
                    }
                } }
            })?;'''),
 conv("e-nomods", "bad", CONV.replace("mods: modifiers", "mods: modifiers - KeyModifiers::SHIFT")),
 conv("e-nullkey", "bad", CONV.replace("XtEvent::Key(KeyEvent { code, modifiers })", "XtEvent::Key(KeyEvent { code, modifiers }) if code != KeyCode::Null")),
 conv("e-caps", "bad", '''        match ev {
            XtEvent::Key(KeyEvent { code, modifiers }) => {
                let code = match code { KeyCode::Char(c) => KeyCode::Char(c.to_ascii_lowercase()), x => x };
                Some(Event::Key { code, mods: modifiers })
            }
            XtEvent::Resize(_, _) => Some(Event::Resize),
            _ => None,
        }'''),
 conv("e-resize0", "bad", CONV.replace("XtEvent::Resize(_, _)", "XtEvent::Resize(1.., _)")),
 conv("e-mouse", "bad", CONV.replace("_ => None", "XtEvent::Mouse(_) => Some(Event::Resize), _ => None")),
 conv("e-conv-if", "ok", '''        if let XtEvent::Key(k) = ev {
            return Some(Event::Key { code: k.code, mods: k.modifiers });
        }
        matches!(ev, XtEvent::Resize(..)).then(|| Event::Resize)'''),
 conv("e-conv-list", "ok", CONV.replace("_ => None", "XtEvent::Mouse(_) => None")),
 ("e-next-recv", "bad", E, [("self.0.try_recv().ok()", "self.0.recv().ok()")], ["E01"]),
 ("e-next-last", "bad", E, [("self.0.try_recv().ok()", "self.0.try_iter().last()")], ["E01"]),
 ("e-next-skip", "bad", E, [("self.0.try_recv().ok()", "match self.0.try_recv().ok() { Some(Event::Resize) => self.0.try_recv().ok(), x => x }")], ["E01"]),
 ("e-next-iter", "ok", E, [("self.0.try_recv().ok()", "self.0.try_iter().next()")], ["E01"]),
 ("e-next-match", "ok", E, [("self.0.try_recv().ok()", "match self.0.try_recv() { Ok(ev) => Some(ev), Err(_) => None }")], ["E01"]),
 ("e-next-empty", "ok", E, [("self.0.try_recv().ok()", "if self.0.is_empty() { return None; } self.0.try_recv().ok()")], ["E01"]),
 ("e-bounded", "bad", E, [("channel::{unbounded, ", "channel::{bounded, "), ("unbounded()", "bounded(64)")], ["E01"]),
 ("e-drop", "bad", E, [("        Ok(Events(rx))", "        let (_, rx) = { drop(rx); unbounded() }; Ok(Events(rx))")], ["E01"]),
 ("e-field", "ok", E, [("pub struct Events(Receiver<Event>);", "pub struct Events { rx: Receiver<Event> }"), ("Ok(Events(rx))", "Ok(Events { rx })"), ("self.0.try_recv", "self.rx.try_recv")], ["E01"]),
 ("t-pal", "bad", T, [("Yellow => Rgb(210", "Yellow => Rgb(211")], ["T01"]),
 ("t-pal2", "bad", T, [("LightCyan => Cyan", "Cyan => LightCyan")], ["T01"]),
 ("t-pal3", "bad", T, [("            x => x,\n        }\n    }", "            Rgb(r, g, b) if r == g && g == b => Rgb(255 - r, 255 - g, 255 - b), x => x,\n        }\n    }")], ["T01"]),
 ("t-bg", "bad", T, [("style.bg = style.bg.map(Th::colour)", "style.bg = style.bg.or(style.fg).map(Th::colour)")], ["T01"]),
 ("t-bg2", "bad", T, [("    style.bg = style.bg.map(Th::colour);\n", "")], ["T01"]),
 ("t-swap", "bad", T, [("style.fg = style.fg.map(Th::colour);\n    style.bg = style.bg.map", "style.bg = style.fg.map(Th::colour);\n    style.bg = style.bg.map")], ["T01"]),
 ("t-bold", "bad", T, [("struct Light;\n\nimpl Alter for Light {", "struct Light;\n\nimpl Alter for Light {\n    fn rm_bold() -> bool { true }")], ["T01"]),
 ("t-reset", "bad", T, [("    style.fg = style.fg.map(Th::colour);", "    if style.fg.is_none() { style.sub_modifier = Modifier::empty(); }\n    style.fg = style.fg.map(Th::colour);")], ["T01"]),
 ("t-mod3", "bad", T, [("theme % 2", "theme % 3"), ("t < 2", "t < 3")], ["T01"]),
 ("t-gt", "bad", T, [("let t = theme % 2", "let t = theme.min(1)")], ["T01"]),
 ("t-and", "ok", T, [("let t = theme % 2", "let t = theme & 1")], ["T01"]),
 ("t-if", "ok", T, [(TH, "        if theme % 2 == 1 { apply::<Light>(self) } else { self }")], ["T01"]),
 ("t-is", "ok", T, [(TH, "        match theme % 2 == 0 { true => self, _ => apply::<Light>(self) }")], ["T01"]),
 ("t-div", "ok", T, [(TH, "        if theme / 2 * 2 == theme { self } else { apply::<Light>(self) }")], ["T01"]),
 ("t-struct", "ok", T, [("    style.fg = style.fg.map(Th::colour);\n    style.bg = style.bg.map(Th::colour);\n", "    let Style { fg, bg, .. } = style;\n    style = Style { fg: fg.map(|c| Th::colour(c)), bg: bg.map(|c| Th::colour(c)), ..style };\n")], ["T01"]),
 ("t-if-let", "ok", T, [("    style.fg = style.fg.map(Th::colour);", "    if let Some(c) = style.fg { style.fg = Some(Th::colour(c)); }")], ["T01"]),
 ("t-for", "ok", T, [("    style.fg = style.fg.map(Th::colour);\n    style.bg = style.bg.map(Th::colour);\n", "    for c in [&mut style.fg, &mut style.bg] { *c = c.map(Th::colour); }\n")], ["T01"]),
 ("t-asmut", "ok", T, [("    style.fg = style.fg.map(Th::colour);\n    style.bg = style.bg.map(Th::colour);\n", "    if let Some(c) = style.fg.as_mut() { *c = Th::colour(*c); }\n    if let Some(c) = &mut style.bg { *c = Th::colour(*c); }\n")], ["T01"]),
 ("t-fgfn", "ok", T, [("    style.fg = style.fg.map(Th::colour);\n    style.bg = style.bg.map(Th::colour);\n", "    if let Some(c) = style.fg { style = style.fg(Th::colour(c)); }\n    if let Some(c) = style.bg { style = style.bg(Th::colour(c)); }\n")], ["T01"]),
 ("t-mods-if", "ok", T, [("""        match style.add_modifier.contains(m) {
            true if rm => style.remove_modifier(m),
            false if add => style.add_modifier(m),
            _ => style,
        }""", """        let has = style.add_modifier.contains(m);
        if has && rm { style.remove_modifier(m) } else if !has && add { style.add_modifier(m) } else { style }""")], ["T01"]),
 ("t-pal-guard", "ok", T, [(PAL, """        if c == White { return Black; }
        match c {
            Magenta => LightMagenta,
            LightCyan => Cyan,
            LightRed => Red,
            Yellow => Rgb(210, 105, 30),
            LightYellow => Rgb(255, 140, 0),
            Rgb(r, g, b) if (r, g, b) == (192, 192, 192) => Rgb(55, 55, 55),
            _ => c,
        }""")], ["T01"]),
 ("t-pal-table", "ok", T, [(PAL, """        const MAP: [(Color, Color); 7] = [(White, Black), (Magenta, LightMagenta), (LightCyan, Cyan), (LightRed, Red),
            (Yellow, Rgb(210, 105, 30)), (LightYellow, Rgb(255, 140, 0)), (Rgb(192, 192, 192), Rgb(55, 55, 55))];
        MAP.iter().find(|(from, _)| *from == c).map(|(_, to)| *to).unwrap_or(c)""")], ["T01"]),
 ("t-pal-table-for", "ok", T, [(PAL, """        let map = [(White, Black), (Magenta, LightMagenta), (LightCyan, Cyan), (LightRed, Red),
            (Yellow, Rgb(210, 105, 30)), (LightYellow, Rgb(255, 140, 0)), (Rgb(192, 192, 192), Rgb(55, 55, 55))];
        for (from, to) in map { if from == c { return to; } }
        c""")], ["T01"]),
]
