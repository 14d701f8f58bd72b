use gvlib::{c, d, g, l, m, r, t};

#[global_allocator]
static ALLOC: gvcore::LimitedAlloc = gvcore::LimitedAlloc;

fn main() {
    let c = c::all();
    let d = d::all();
    let m = m::all();
    let g = g::all();
    let l = l::all();
    let r = r::all();
    let t = t::all();
    let all: Vec<&dyn gvcore::Runnable> = c.iter().chain(&d).chain(&m).chain(&g).chain(&l).chain(&r).chain(&t).map(|b| &**b as &dyn gvcore::Runnable).collect();
    gvcore::main(&all)
}
