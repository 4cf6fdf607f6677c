#![allow(dead_code)]
mod driver;
mod dump;
mod exec;
mod gen_ops;
mod highlight;
mod plan;
mod props;
mod rng;
mod run;
mod sim;
mod zygote;

#[global_allocator]
static HEAP: sim::Heap = sim::Heap;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("zygote") {
        zygote::main()
    }
    zygote::disable_aslr();
    std::process::exit(driver::main(&a[1..]))
}
