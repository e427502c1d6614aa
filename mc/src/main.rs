use mc::*;

#[global_allocator]
static ENV: mem::Env = mem::Env;

const CHECKS: &[(&str, &str, CheckFn)] = &[
    ("C01", "exploration", arith::c01),
    ("C02", "exploration", arith::c02),
    ("C03", "exploration", arith::c03),
    ("C04", "exploration", arith::c04),
    ("C05", "exploration", arith::c05),
    ("C06", "exploration", arith::c06),
    ("C07", "exploration", edges::c07),
    ("C08", "exploration", edges::c08),
    ("C09", "exploration", edges::c09),
    ("C10", "exploration", special::c10),
    ("C11", "exploration", edges::c11),
    ("C12", "exploration", edges::c12),
    ("C13", "exploration", prim::c13),
    ("C14", "exploration", text::c14),
    ("C15", "exploration", text::c15),
    ("C16", "exploration", text::c16),
    ("C17", "exploration", trans::c17),
    ("C18", "exploration", trans::c18),
    ("C19", "exploration", trans::c19),
    ("C20", "exploration", hist::c20),
    ("C21", "model_checking", hist::c21),
    ("C22", "model_checking", mem::c22),
    ("C23", "exploration", mem::c23),
    ("C24", "exploration", total::c24),
    ("C25", "model_checking", reach::c25),
    ("C28", "exploration", serial::c28),
    ("C29", "exploration", edges::c29),
    ("C30", "exploration", edges::c30),
    ("C31", "exploration", random::c31),
    ("C32", "exploration", confs::c32),
];

fn main() {
    run_main(CHECKS)
}
