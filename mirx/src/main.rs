//! mirx: a rustc driver that exports the type-checked program (MIR with resolved
//! callees) of workspace crates as JSON, for the analyser in /verif/analysis.
//! It runs as RUSTC_WORKSPACE_WRAPPER: argv = mirx <rustc> <args...>.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod export;
mod json;

use rustc_driver::Compilation;
use rustc_middle::ty::TyCtxt;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(dir) = std::env::var("MIRX_OUT") {
            export::export(tcx, &dir);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv[1] is the rustc path when used as a wrapper
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let has_src = args.iter().any(|a| a.ends_with(".rs"));
    let probing = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"));
    if !has_src || probing {
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
        return;
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Coverflow-checks=on".into());
    args.push("-Cdebug-assertions=off".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
