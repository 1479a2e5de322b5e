#![feature(new_range_api)]
#![allow(clippy::all)]
//! Runtime monitors for the core framework crate.
mod arena;
mod buf;
mod conc;
mod err;
mod inc;
mod lex;
mod pratt;
mod scan;
mod ser;
mod src;
mod state;
mod toy;
mod tree;

use vcommon::Run;

#[global_allocator]
static A: vcommon::CountingAlloc = vcommon::CountingAlloc;

fn main() {
    let mut r = Run::from_env();
    match r.id.clone().as_str() {
        "C01" => src::views(&mut r),
        "C02" => src::edits(&mut r),
        "C03" => scan::scanners(&mut r),
        "C04" => lex::toolkit(&mut r),
        "C05" => lex::incremental(&mut r),
        "C06" => tree::shape(&mut r),
        "C07" => tree::traversal(&mut r),
        "C08" => inc::equivalence(&mut r),
        "C09" => arena::memory(&mut r),
        "C10" => inc::lifetimes(&mut r),
        "C11" => pratt::precedence(&mut r),
        "C12" => state::backtracking(&mut r),
        "C13" => conc::parallel(&mut r),
        "C14" => err::positions(&mut r),
        "C15" => ser::round_trips(&mut r),
        "C36" => buf::buffers(&mut r),
        "noop" => {}
        x => panic!("unknown property {x}"),
    }
    r.finish()
}
