#[macro_use]
#[path = "../engine.rs"]
mod engine;
#[macro_use]
#[path = "../api.rs"]
mod api;
#[path = "../p_mat.rs"]
mod p_mat;
#[path = "../cli.rs"]
mod cli;

fn main() {
    cli::main(p_mat::checks())
}
