#[macro_use]
#[path = "../engine.rs"]
mod engine;
#[macro_use]
#[path = "../api.rs"]
mod api;
#[path = "../p_quat.rs"]
mod p_quat;
#[path = "../cli.rs"]
mod cli;

fn main() {
    cli::main(p_quat::checks())
}
