//! The same as `main.rs` with keys and values that need no `Drop`.

mod cli;
mod cont;
mod driver;
mod exec;
mod r#gen;
mod hist;
mod plan;
mod run;
mod ser;
mod vals;

#[global_allocator]
static A: simrt::SimAlloc = simrt::SimAlloc;

fn main() {
    cli::main();
}
