#![feature(new_range_api)]
#![allow(clippy::all)]
//! Runtime monitors for the tooling crates.
#[path = "../../hcore/src/src.rs"]
#[allow(dead_code)]
mod src;
#[path = "../../hcore/src/toy.rs"]
#[allow(dead_code)]
mod toy;
#[path = "../../hcore/src/tree.rs"]
#[allow(dead_code)]
mod tree;
mod inc {
    pub fn scribble() {}
}
mod diag;
mod disk;
mod hl;
mod layout;
mod pp;
mod proto;
mod repl;
mod rpc;
mod vfs;
mod vis;
mod ws;

use vcommon::Run;

#[global_allocator]
static A: vcommon::CountingAlloc = vcommon::CountingAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 5 && a[1] == "repl-child" {
        repl::child(&a[2], a[3] == "1", a[4] == "1");
    }
    let mut r = Run::from_env();
    match r.id.clone().as_str() {
        "C16" => vfs::memory(&mut r),
        "C17" => vfs::lines(&mut r),
        "C18" => ws::table(&mut r),
        "C19" => ws::workspace(&mut r),
        "C20" => ws::resolver(&mut r),
        "C21" => diag::emitters(&mut r),
        "C22" => hl::highlighting(&mut r),
        "C23" => pp::printing(&mut r),
        "C24" => rpc::mcp(&mut r),
        "C28" => rpc::service(&mut r),
        "C29" => disk::disk(&mut r),
        "C35" => proto::records(&mut r),
        "C25" => repl::editing(&mut r),
        "C26" => vis::drawing(&mut r),
        "C27" => ws::navigation(&mut r),
        "noop" => {}
        x => panic!("unknown property {x}"),
    }
    r.finish()
}
