mod b;
mod p;

#[global_allocator]
static ALLOC: gvcore::LimitedAlloc = gvcore::LimitedAlloc;

fn main() {
    let b = b::all();
    let p = p::all();
    let all: Vec<&dyn gvcore::Runnable> = b.iter().chain(&p).map(|b| &**b as &dyn gvcore::Runnable).collect();
    gvcore::main(&all)
}
