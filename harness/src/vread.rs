#![allow(dead_code)]
//! C32: what the library reads.
mod engine;
mod exec;
mod expr;
mod gen;
mod model;
mod props_a;
mod props_b;
mod props_e;
mod rates;
mod render;
mod report;
mod rich;
fn main() {
    std::env::set_var("TZ", "UTC");
    unsafe {
        exec::RUN_APP = Some(dinero::run_app);
    }
    let mut props = vec![];
    props.extend(props_e::props());
    std::process::exit(engine::main(&props));
}
