//! The generated programs.
use astro_float::ctx::Context;
use astro_float::{expr, BigFloat};

pub type F = fn(&BigFloat, &BigFloat, &BigFloat, &mut Context) -> BigFloat;

include!(concat!(env!("OUT_DIR"), "/gen.rs"));
