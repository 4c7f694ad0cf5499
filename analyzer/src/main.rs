//! rustc driver which dumps the monomorphic MIR reachable from the `root_*`
//! functions of the fixture crate as JSON (one file), with all callees, trait
//! object vtables, constants and statics resolved by the compiler.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    krate: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("SA_OUT").expect("SA_OUT");
        let path = format!("{}/{}.json", out, self.krate);
        let j = dump::dump_crate(tcx, &self.krate);
        std::fs::write(&path, j).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the path of the real rustc
    let rustc = args.remove(1);
    let mut krate = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            krate = w[1].clone();
        }
    }
    let wanted = std::env::var("SA_CRATES").unwrap_or_default();
    let is_wanted = wanted.split(',').any(|x| x == krate);
    if !is_wanted {
        let st = std::process::Command::new(rustc)
            .args(&args[1..])
            .status()
            .expect("run rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { krate });
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
