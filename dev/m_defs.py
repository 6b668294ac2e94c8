DF = "ogma/src/lang/defs.rs"; TY = "ogma/src/lang/types.rs"; IM = "ogma/src/lang/impls/mod.rs"
def c(n, ex, f, e, *p): return (n, ex, f, e if isinstance(e, list) else [e], list(p or ["D01"]))
FILT = """            .filter(|im| match im {
                Implementation::Intrinsic { .. } => true,
                Implementation::Definition(x) if x.loc == Location::Ogma => true,
                _ => false,
            })
            .is_some();"""
LOOK = """        let ogma_defined = self
            .0
            .get(name)
            .and_then(|x| match &ty {
                Some(t) => x.tys.get(t),
                None => x.agnostic.as_ref(),
            })
            .map(|(im, _, _)| im)
""" + FILT
PRE = "        if ogma_defined {\n            return Err(Error::predefined_impl(&def, ty.as_ref()));\n        }\n"
STORE = """        match ty {
            Some(t) => {
                keys.tys.insert(t, impl_);
            }
            None => keys.agnostic = Some(impl_),
        }

        Ok(())
"""
INTR = """        if impls.0.get(&op).map_or(false, |x| x.agnostic.is_some()) {
            return Err(Error::init_impl_clash(tydef.name(), &op));
        }
"""
TINS = """        let (mut new_types, mut new_impls) = (self.clone(), impls.clone());
        let ty = new_types.insert_inner(def, loc, help)?;
        lang::impls::add_typedef_init_impls(&mut new_impls, ty)?;
        *self = new_types;
        *impls = new_impls;
        Ok(())
"""
CLR = """        self.0.values_mut().for_each(|m| {
            m.retain(|_, im, _, _| match im.location() {
                Location::Ogma => true,
                Location::Shell => only_files,
                Location::File(_, _) => false,
            })
        });
        self.0.retain(|_, m| !m.is_empty())
"""
RET = """        self.tys.retain(|t, (i, o, h)| predicate(Some(t), i, o, h));
        self.agnostic = self
            .agnostic
            .take()
            .filter(|(i, o, h)| predicate(None, i, o, h));
"""
TCLR = """        self.map.retain(|_, x| match x {
            Type::Def(x) => match &x.loc {
                Location::Ogma => true,
                Location::Shell => only_files,
                Location::File(_, _) => false,
            },
            _ => true,
        })
"""
CASES = [
 c("nocheck", "bad", IM, (PRE, "        let _ = ogma_defined;\n")),
 c("intr-free", "bad", IM, (FILT, FILT.replace("Implementation::Intrinsic { .. } => true,", "Implementation::Intrinsic { .. } => false,"))),
 c("def-free", "bad", IM, (FILT, FILT.replace("if x.loc == Location::Ogma", "if x.loc == Location::Shell"))),
 c("agn-only", "bad", IM, (LOOK, LOOK.replace("Some(t) => x.tys.get(t),", "Some(_) => x.agnostic.as_ref(),"))),
 c("typed-only", "bad", IM, (LOOK, LOOK.replace("None => x.agnostic.as_ref(),", "None => None,"))),
 c("store-first", "bad", IM, [(PRE, ""), (STORE, STORE.replace("        Ok(())", "        if ogma_defined {\n            return Err(Error::op_not_found(&Tag::default(), None, false, self));\n        }\n        Ok(())"))]),
 c("entry-first", "bad", IM, (PRE, "        self.0.entry(Str::new(name)).or_default();\n" + PRE)),
 c("wrong-slot", "bad", IM, (STORE, STORE.replace("None => keys.agnostic = Some(impl_),", "None => {\n                keys.tys.insert(Type::Nil, impl_);\n            }"))),
 c("wrong-type", "bad", IM, (STORE, STORE.replace("            Some(t) => {\n                keys.tys.insert(t, impl_);\n            }\n", "            Some(_) => keys.agnostic = Some(impl_),\n"))),
 c("wrong-name", "bad", IM, ("        let name = Str::new(name);\n\n        let keys", "        let name = Str::new(def.src.as_ref());\n\n        let keys")),
 c("clears-typed", "bad", IM, (STORE, STORE.replace("            None => keys.agnostic = Some(impl_),", "            None => {\n                keys.tys.clear();\n                keys.agnostic = Some(impl_)\n            }"))),
 c("init-nocheck", "bad", IM, (INTR, "")),
 c("init-name", "bad", IM, (INTR, INTR.replace("get(&op)", "get(tydef.name().str())"))),
 c("init-typed", "bad", IM, (INTR, INTR.replace("x.agnostic.is_some()", "x.tys.is_empty() && x.agnostic.is_some()"))),
 c("ty-direct", "bad", TY, (TINS, "        let ty = self.insert_inner(def, loc, help)?;\n        lang::impls::add_typedef_init_impls(impls, ty)\n")),
 c("ty-half", "bad", TY, (TINS, TINS.replace("lang::impls::add_typedef_init_impls(&mut new_impls, ty)?;\n        *self = new_types;", "*self = new_types;\n        lang::impls::add_typedef_init_impls(&mut new_impls, ty)?;"))),
 c("ty-impls-direct", "bad", TY, (TINS, TINS.replace("(mut new_types, mut new_impls) = (self.clone(), impls.clone())", "mut new_types = self.clone()").replace("&mut new_impls", "impls").replace("        *impls = new_impls;\n", ""))),
 c("ty-redefine", "bad", TY, ("        if self.contains_type(ty.name().str()) {", "        if self.contains_type(ty.name().str()) && ty.is_tuple() {")),
 c("ty-name", "bad", TY, ("            let name = Str::new(&ty.name);\n            self.map", "            let name = Str::new(\"T\");\n            self.map")),
 c("clr-shell", "bad", IM, (CLR, CLR.replace("Location::Shell => only_files", "Location::Shell => true"))),
 c("clr-inv", "bad", IM, (CLR, CLR.replace("Location::Shell => only_files", "Location::Shell => !only_files"))),
 c("clr-files", "bad", IM, (CLR, CLR.replace("Location::File(_, _) => false", "Location::File(_, _) => !only_files"))),
 c("clr-ogma", "bad", IM, (CLR, CLR.replace("Location::Ogma => true", "Location::Ogma => only_files"))),
 c("clr-noagn", "bad", IM, (RET, "        self.tys.retain(|t, (i, o, h)| predicate(Some(t), i, o, h));\n        self.agnostic = self.agnostic.take();\n")),
 c("clr-dropagn", "bad", IM, (RET, "        self.tys.retain(|t, (i, o, h)| predicate(Some(t), i, o, h));\n        self.agnostic = None;\n")),
 c("clr-notyped", "bad", IM, (RET, RET.replace("        self.tys.retain(|t, (i, o, h)| predicate(Some(t), i, o, h));\n", ""))),
 c("clr-names", "bad", IM, (CLR, CLR.replace("!m.is_empty()", "!m.tys.is_empty()"))),
 c("clr-names2", "bad", IM, (CLR, CLR.replace("!m.is_empty()", "m.agnostic.is_some()"))),
 c("clr-empty", "bad", IM, ("        self.tys.is_empty() && self.agnostic.is_none()", "        self.tys.is_empty() || self.agnostic.is_none()")),
 c("clr-notypes", "bad", DF, ("        self.types.clear(only_files);\n", "")),
 c("clr-noimpls", "bad", DF, ("        self.impls.clear(only_files);\n", "")),
 c("clr-always", "bad", DF, ("        self.types.clear(only_files);\n", "        self.types.clear(true);\n")),
 c("tclr-shell", "bad", TY, (TCLR, TCLR.replace("Location::Shell => only_files", "Location::Shell => true"))),
 c("tclr-prim", "bad", TY, (TCLR, TCLR.replace("            _ => true,", "            Type::Nil => false,\n            _ => true,"))),
 c("tclr-files", "bad", TY, (TCLR, TCLR.replace("Location::File(_, _) => false", "Location::File(_, n) => *n == 0"))),
 c("pd-late", "bad", DF, ("        assert_all_ops_defined(&def, defs.impls())?;\n", "        if s.len() > 1000 {\n            defs.clear(true);\n        }\n        assert_all_ops_defined(&def, defs.impls())?;\n")),
 c("elsewhere", "bad", IM, ("    /// Is there an op with `name`?", "    pub fn forget(&mut self, name: &str) {\n        self.0.remove(name);\n    }\n\n    /// Is there an op with `name`?")),
 # behaviour-keeping
 c("ok-match", "ok", IM, (LOOK, """        let existing = self.0.get(name).and_then(|keys| match ty.as_ref() {
            Some(t) => keys.tys.get(t),
            None => keys.agnostic.as_ref(),
        });
        let ogma_defined = match existing {
            Some((Implementation::Intrinsic { .. }, _, _)) => true,
            Some((Implementation::Definition(d), _, _)) => d.loc == Location::Ogma,
            None => false,
        };
""")),
 c("ok-matches", "ok", IM, (FILT, """            .map_or(false, |im| {
                matches!(im, Implementation::Intrinsic { .. })
                    || matches!(im, Implementation::Definition(x) if x.loc == Location::Ogma)
            });""")),
 c("ok-helper", "ok", IM, [(LOOK, "        let ogma_defined = self.predefined(name, ty.as_ref());\n"), ("    /// Iterate over _all_ the implementations.\n", """    fn predefined(&self, name: &str, ty: Option<&Type>) -> bool {
        let keys = match self.0.get(name) {
            Some(keys) => keys,
            None => return false,
        };
        let entry = match ty {
            Some(t) => keys.tys.get(t),
            None => keys.agnostic.as_ref(),
        };
        match entry {
            None => false,
            Some((Implementation::Intrinsic { .. }, ..)) => true,
            Some((Implementation::Definition(x), ..)) => matches!(x.loc, Location::Ogma),
        }
    }

    /// Iterate over _all_ the implementations.
""")]),
 c("ok-iflet", "ok", IM, (STORE, """        if let Some(t) = ty {
            keys.tys.insert(t, impl_);
        } else {
            keys.agnostic.replace(impl_);
        }

        Ok(())
""")),
 c("ok-order", "ok", IM, [("        let name = Str::new(name);\n\n        let keys = self.0.entry(name).or_default();\n        let impl_ = (Implementation::Definition(Box::new(def)), cat, help);\n", "        let key = Str::new(name);\n        let impl_ = (Implementation::Definition(Box::new(def)), cat, help);\n        let keys = self.0.entry(key).or_default();\n")]),
 c("ok-init", "ok", IM, (INTR, """        let taken = match impls.0.get(&op) {
            Some(keys) => keys.agnostic.is_some(),
            None => false,
        };
        if taken {
            return Err(Error::init_impl_clash(tydef.name(), &op));
        }
""")),
 c("ok-tins", "ok", TY, (TINS, """        let mut new_types = self.clone();
        let ty = new_types.insert_inner(def, loc, help)?;
        let mut new_impls = impls.clone();
        lang::impls::add_typedef_init_impls(&mut new_impls, ty).map(|_| {
            *impls = new_impls;
            *self = new_types;
        })
""")),
 c("ok-tname", "ok", TY, ("            let name = Str::new(&ty.name);\n            self.map.insert(name, Type::Def(ty.clone()));", "            self.map\n                .insert(Str::new(ty.name()), Type::Def(Arc::clone(&ty)));")),
 c("ok-tearly", "ok", TY, ("        if self.contains_type(ty.name().str()) {", "        if self.map.get(ty.name().str()).is_some() {")),
 c("ok-clr-for", "ok", IM, (CLR, """        for m in self.0.values_mut() {
            m.retain(|_, im, _, _| match im.location() {
                Location::Ogma => true,
                Location::Shell if only_files => true,
                _ => false,
            });
        }
        self.0.retain(|_, m| !m.is_empty())
""")),
 c("ok-clr-iter", "ok", IM, (CLR, """        for (_, m) in self.0.iter_mut() {
            m.retain(|_, im, _, _| {
                let loc = im.location();
                *loc == Location::Ogma || (only_files && *loc == Location::Shell)
            });
        }
        self.0.retain(|_, m| !m.is_empty())
""")),
 c("ok-clr-one", "ok", IM, (CLR, """        self.0.retain(|_, m| {
            m.retain(|_, im, _, _| match im.location() {
                Location::Ogma => true,
                Location::Shell => only_files,
                Location::File(_, _) => false,
            });
            !m.is_empty()
        })
""")),
 c("ok-ret-agn", "ok", IM, (RET, """        self.tys.retain(|t, (i, o, h)| predicate(Some(t), i, o, h));
        let keep = match &self.agnostic {
            Some((i, o, h)) => predicate(None, i, o, h),
            None => true,
        };
        if !keep {
            self.agnostic = None;
        }
""")),
 c("ok-ret-order", "ok", IM, (RET, """        if let Some((i, o, h)) = self.agnostic.take() {
            if predicate(None, &i, &o, &h) {
                self.agnostic = Some((i, o, h));
            }
        }
        self.tys.retain(|t, x| predicate(Some(t), &x.0, &x.1, &x.2));
""")),
 c("ok-tclr", "ok", TY, (TCLR, """        self.map.retain(|_, x| {
            if let Type::Def(def) = x {
                match def.loc {
                    Location::Ogma => true,
                    Location::Shell => only_files,
                    Location::File(..) => false,
                }
            } else {
                true
            }
        });
""")),
 c("ok-swap", "ok", DF, ("        self.impls.clear(only_files);\n        self.types.clear(only_files);\n", "        let Self { impls, types } = self;\n        types.clear(only_files);\n        impls.clear(only_files);\n")),
 c("ok-early", "ok", DF, ("    if def.starts_with(\"def \") {\n        process_impl(def, loc, help, defs)\n    } else if def.starts_with(\"def-ty \") {\n        process_ty(def, loc, help, defs)\n    } else {", "    if def.starts_with(\"def-ty \") {\n        process_ty(def, loc, help, defs)\n    } else if def.starts_with(\"def \") {\n        process_impl(def, loc, help, defs)\n    } else {")),
 c("ok-inty", "ok", DF, ("        let in_ty = if let Some(in_ty) = &def.in_ty {\n            Some(defs.types.get_using_tag(in_ty)?.clone())\n        } else {\n            None\n        };\n\n        let mut helpmsg", "        let in_ty = match &def.in_ty {\n            Some(tag) => Some(defs.types.get_using_tag(tag)?.clone()),\n            None => None,\n        };\n\n        let mut helpmsg")),
 c("ok-inty2", "ok", DF, ("        let in_ty = if let Some(in_ty) = &def.in_ty {\n            Some(defs.types.get_using_tag(in_ty)?.clone())\n        } else {\n            None\n        };\n\n        let mut helpmsg", "        let in_ty = def\n            .in_ty\n            .as_ref()\n            .map(|tag| defs.types.get_using_tag(tag).map(Clone::clone))\n            .transpose()?;\n\n        let mut helpmsg")),
 c("ok-for", "ok", DF, ("        let mut count = 0;\n        for item in items.types.into_iter().chain(items.impls).map(|(_, x)| x) {\n            let lang::parse::Item { doc, code, line } = item;\n            process_definition(&code, Location::File(file.clone(), line), doc, self)?;\n            count += 1;\n        }\n\n        Ok(count)", "        items\n            .types\n            .into_iter()\n            .chain(items.impls)\n            .try_fold(0, |count, (_, item)| {\n                let lang::parse::Item { doc, code, line } = item;\n                process_definition(&code, Location::File(file.clone(), line), doc, self)?;\n                Ok(count + 1)\n            })")),
 c("ok-new-reader", "ok", IM, ("    /// Is there an op with `name`?", "    /// The number of names.\n    pub fn names(&self) -> usize {\n        self.0.len()\n    }\n\n    /// Is there an op with `name`?")),
]
