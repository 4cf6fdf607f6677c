#![allow(dead_code)]
include!(concat!(env!("OUT_DIR"), "/cli/main.rs"));
/// The program, up to its return from `main`.
pub fn run() -> bool {
    std::process::Termination::report(main()) == std::process::ExitCode::SUCCESS
}
