//! What the interpreter runs: one scenario per process.
//!   free PROPERTY SEED RUN SKIP [list]     free-running threads (src/free.rs)
//!   scen PROPERTY SEED RUN SKIP [list]     a scenario of the main simulator, scaled down
//!   smoke                                  nothing, to see whether the interpreter works
#[global_allocator]
static A: palmsim::alloc::SimAlloc = palmsim::alloc::SimAlloc;
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let skip = s(4).split(',').filter_map(|x| x.parse().ok()).collect();
    let (seed, run) = (s(2).parse().unwrap_or(1), s(3).parse().unwrap_or(0));
    match s(0) {
        "free" => palmsim::free::main(seed, run, s(1) == "C04", &skip, s(5) == "list"),
        "scen" => palmsim::interp::scenario(s(1), seed, run, &skip, s(5) == "list"),
        _ => println!("SMOKE"),
    }
}
