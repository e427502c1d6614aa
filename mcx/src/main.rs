use mc::*;

mod ctx;
mod expr;
mod gen;

#[global_allocator]
static ENV: mem::Env = mem::Env;

const CHECKS: &[(&str, &str, CheckFn)] = &[("C26", "exploration", expr::c26), ("C27", "exploration", ctx::c27)];

fn main() {
    run_main(CHECKS)
}
