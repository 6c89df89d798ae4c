mod alloc;
mod combos;
mod driver;
mod elems;
mod gen;
mod interp;
mod kind;
mod machine;
mod rng;
mod scenario;
mod sched;
mod sys;
mod world;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    std::process::exit(driver::main());
}
