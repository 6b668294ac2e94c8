//! MIR fact extractor: runs as RUSTC_WORKSPACE_WRAPPER, compiles the crate as rustc would and,
//! after analysis, writes every body of the crate (and, in deep mode, the bodies of the resolved
//! external functions they reach) as JSON.  No decision is made here: the analyses read the facts.
#![feature(rustc_private, exitcode_exit_method)]
extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::Compilation;
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("OGMA_FACTS_DIR") {
            let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
            if !name.starts_with("build_script") {
                let deep = std::env::var("OGMA_FACTS_DEEP").ok();
                let s = dump::dump(tcx, deep.as_deref());
                let suffix = if tcx.sess.is_test_crate() { "-test" } else { "" };
                std::fs::create_dir_all(&dir).unwrap();
                let p = format!("{dir}/{name}{suffix}.json");
                std::fs::write(&p, s).unwrap();
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: argv[1] is the path of the real rustc
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem() == Some("rustc".as_ref()) {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    // ExitCode has no getter: exit through the termination trait
    use std::process::Termination;
    code.report().exit_process()
}
