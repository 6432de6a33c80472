mod audit;
mod checks;
mod docgen;
mod hooks;
mod observe;
mod reader;
mod rng;
mod rt;
mod runner;

#[global_allocator]
static ALLOC: rt::SimAlloc = rt::SimAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(runner::main(&a[1..]));
}
