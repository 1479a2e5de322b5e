#![feature(new_range_api)]
#![allow(clippy::all)]
//! Runtime monitors for the macro crate.
#[allow(dead_code)]
mod api;
#[path = "../../htools/src/layout.rs"]
#[allow(dead_code)]
mod layout;
#[cfg(feature = "calls")]
mod mac;

use vcommon::Run;

fn main() {
    let mut r = Run::from_env();
    match r.id.clone().as_str() {
        #[cfg(feature = "calls")]
        "C37" => mac::macros(&mut r),
        "noop" => {}
        x => panic!("unknown property {x}"),
    }
    r.finish()
}
