#![allow(dead_code)]
mod engine;
mod exec;
mod expr;
mod gen;
mod model;
mod props_a;
mod props_b;
mod props_c;
mod props_d;
mod rates;
mod render;
mod report;
mod rich;

fn main() {
    std::env::set_var("TZ", "UTC");
    unsafe {
        exec::RUN_APP = Some(dinero::run_app);
    }
    let mut props = vec![];
    props.extend(props_a::props());
    props.extend(props_b::props());
    props.extend(props_c::props());
    props.extend(props_d::props());
    std::process::exit(engine::main(&props));
}
