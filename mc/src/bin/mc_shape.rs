#[macro_use]
#[path = "../engine.rs"]
mod engine;
#[path = "../geo.rs"]
mod geo;
#[path = "../p_shape.rs"]
mod p_shape;
#[path = "../cli.rs"]
mod cli;

fn main() {
    cli::main(p_shape::checks())
}
