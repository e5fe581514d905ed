//! MIR dumper: a rustc driver used as RUSTC_WRAPPER.  For the crates named in VP_CRATES it
//! writes, after type checking, a JSON file with every function body (unoptimised runtime MIR,
//! instantiated with its own generic parameters), every body transitively callable from it that
//! can be resolved, the types involved, and the values of all constants.  It changes nothing in
//! the compilation itself.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

#[macro_use]
mod json;
mod dump;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if std::env::var_os("VP_LITE").is_some() {
            dump::dump_lite(tcx, &self.out);
        } else {
            dump::dump_crate(tcx, &self.out);
        }
        Compilation::Continue
    }
}
struct NoCb;
impl Callbacks for NoCb {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc path.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let wanted = std::env::var("VP_CRATES").unwrap_or_default();
    let is_wanted = wanted.split(',').any(|c| c == crate_name) && !args.iter().any(|a| a == "--print" || a.starts_with("--print="));
    let probe_meta = args.iter().any(|a| a == "-vV" || a == "--version");
    if !probe_meta && !crate_name.is_empty() && crate_name != "___" && crate_name != "build_script_build" {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=yes".into());
    }
    rustc_driver::catch_with_exit_code(move || {
        if is_wanted {
            let out = std::env::var("VP_OUT").expect("VP_OUT");
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut NoCb)
        }
    })
}
