#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_hir;
extern crate rustc_span;
extern crate rustc_abi;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;

mod dump;

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump::dump(tcx, &self.out);
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].contains("rustc") { args.remove(1); }
    let dump_dir = std::env::var("MIRDUMP_OUT").ok();
    let is_build = args.iter().any(|a| a == "--crate-name");
    match dump_dir {
        Some(out) if is_build => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Coverflow-checks=on".into());
            args.push("-Cdebug-assertions=on".into());
            let mut cb = Cb { out };
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        }
        _ => {
            struct N; impl Callbacks for N {}
            rustc_driver::compiler_entrypoint(&args, &mut N);
        }
    }
}
