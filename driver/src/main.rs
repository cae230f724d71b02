//! RUSTC_WRAPPER driver.  For the crate `probe` it dumps the substituted MIR of everything reachable
//! from the probe's root functions as JSON; for the crate `rstar` it dumps facts that only the
//! crate's own HIR knows (unsafe code, items).  Every other crate is compiled as usual.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod api;
mod json;
mod mirdump;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Probe {
    out: String,
}
impl Callbacks for Probe {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        mirdump::dump(tcx, &self.out);
        Compilation::Stop
    }
}

struct Subject {
    out: String,
}
impl Callbacks for Subject {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        api::dump(tcx, &self.out);
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the path of rustc
    args.remove(0);
    let mut name = String::new();
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
        i += 1;
    }
    let probing = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"));
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if !probing && !out.is_empty() && name == "probe" {
        let mut cb = Probe { out: format!("{out}/probe.json") };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
        return;
    }
    if !probing && !out.is_empty() && name == "rstar" {
        let mut cb = Subject { out: format!("{out}/rstar.json") };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
        return;
    }
    let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
    std::process::exit(st.code().unwrap_or(101));
}
