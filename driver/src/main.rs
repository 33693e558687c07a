//! Compiler wrapper that dumps monomorphised MIR as JSON.
//!
//! Used as RUSTC_WRAPPER: `mirdump <rustc> <args..>`. For the crate named in `MIRDUMP_CRATE` it
//! runs the compiler with a callback that collects every instance reachable from the roots of the
//! crate and writes bodies, types and constants to `MIRDUMP_OUT`. All other crates are compiled
//! unchanged. Nothing is executed.
#![feature(rustc_private)]
#![allow(unused_imports)]

extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

mod dump;
mod json;
mod lint;

use std::ops::ControlFlow;
use std::process::{Command, ExitCode};

fn main() -> ExitCode {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // RUSTC_WRAPPER passes the real compiler as first argument.
    let is_wrapped = args.first().map(|a| a.ends_with("rustc")).unwrap_or(false);
    let rustc = if is_wrapped { args.remove(0) } else { "rustc".to_string() };
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_print = args.iter().any(|a| a.starts_with("--print") || a == "-vV");
    let is_build_script = crate_name.starts_with("build_script_");
    let lint = std::env::var("MIRDUMP_LINT_CRATE").unwrap_or_default();
    if !is_print && !lint.is_empty() && crate_name == lint && crate_name != want {
        let mut full = vec![rustc];
        full.extend(args);
        let result = rustc_public::run_with_tcx!(&full, |tcx| -> ControlFlow<(), ()> {
            lint::lint_crate(tcx, &std::env::var("MIRDUMP_LINT_OUT").expect("MIRDUMP_LINT_OUT"));
            ControlFlow::Continue(())
        });
        return if result.is_ok() { ExitCode::SUCCESS } else { ExitCode::from(1) };
    }
    if is_print || crate_name != want || is_build_script {
        let status = Command::new(&rustc).args(&args).status().expect("cannot run rustc");
        return ExitCode::from(status.code().unwrap_or(1) as u8);
    }
    let mut full = vec![rustc];
    full.extend(args);
    let result = rustc_public::run_with_tcx!(&full, |tcx| -> ControlFlow<(), ()> {
        dump::dump_crate(tcx);
        ControlFlow::Continue(())
    });
    match result {
        Ok(_) => ExitCode::SUCCESS,
        Err(_) => ExitCode::from(1),
    }
}
