#![feature(new_range_api)]
#![allow(clippy::all)]
//! Runtime monitors for the shipped languages (examples/*).
mod langs;
mod btable;
mod build;
mod probe;
mod quarantine;
mod snap;
mod table;

use vcommon::Run;

#[global_allocator]
static A: vcommon::CountingAlloc = vcommon::CountingAlloc;

fn main() {
    let mut r = Run::from_env();
    match r.id.clone().as_str() {
        "C30" => langs::c30(&mut r),
        "C31" => langs::c31(&mut r),
        "C32" => langs::c32(&mut r),
        "C33" => langs::c33(&mut r),
        "C34" => snap::c34(&mut r),
        "survey" => langs::survey(&mut r),
        "one" => return langs::one(),
        "noop" => {}
        x => panic!("unknown property {x}"),
    }
    r.finish()
}
