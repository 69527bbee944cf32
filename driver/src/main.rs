#![feature(rustc_private)]
//! MIR fact extractor: runs as a rustc wrapper, and for the crate named in MIRFACTS_CRATE writes
//! the resolved program (types, impls, bodies, callees) as JSON to MIRFACTS_OUT.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            let text = dump::dump(tcx);
            std::fs::write(out, text).expect("write facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: argv = [mirfacts, rustc, ...]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let mut is_target = false;
    let mut is_test = false;
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() && args[i + 1] == want {
            is_target = true;
        }
        if args[i] == "--test" {
            is_test = true;
        }
    }
    let out = if is_target && !is_test {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        std::env::var("MIRFACTS_OUT").ok()
    } else {
        None
    };
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
