//! Generates every expression of the program spaces: a function that evaluates it with `expr!`,
//! and its postfix form for the reference evaluator.
use std::fmt::Write;

const UN: [&str; 20] = [
    "recip", "sqrt", "cbrt", "ln", "log2", "log10", "exp", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh",
    "tanh", "asinh", "acosh", "atanh", "neg",
];
const BIN: [&str; 7] = ["+", "-", "*", "/", "%", "log", "pow"];
/// source text, postfix token
const LEAVES: [(&str, &str); 9] = [
    ("x", "x"),
    ("y", "y"),
    ("pi", "pi"),
    ("e", "e"),
    ("ln_2", "ln_2"),
    ("ln_10", "ln_10"),
    ("0.1", "#0.1"),
    ("3", "#3"),
    ("\"1.7e-5\"", "#1.7e-5"),
];

type T = (String, String);

fn leaf(i: usize) -> T {
    (LEAVES[i].0.into(), LEAVES[i].1.into())
}
fn un(f: &str, a: &T) -> T {
    if f == "neg" {
        (format!("(-{})", a.0), format!("{} neg", a.1))
    } else if f == "id" {
        a.clone()
    } else {
        (format!("{}({})", f, a.0), format!("{} {}", a.1, f))
    }
}
fn bin(op: &str, a: &T, b: &T) -> T {
    let s = match op {
        "log" | "pow" => format!("{}({}, {})", op, a.0, b.0),
        _ => format!("({} {} {})", a.0, op, b.0),
    };
    (s, format!("{} {} {}", a.1, b.1, op))
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let mut groups: Vec<(&str, Vec<(T, String)>)> = vec![];
    let x = leaf(0);
    let y = leaf(1);
    // one operation on every kind of leaf
    let mut v = vec![];
    for f in UN {
        for l in 0..LEAVES.len() {
            if l != 1 {
                v.push((un(f, &leaf(l)), String::new()));
            }
        }
    }
    for l in 0..LEAVES.len() {
        if l != 1 {
            v.push((leaf(l), String::new()));
        }
    }
    groups.push(("UNARY", v));
    let mut v = vec![];
    for op in BIN {
        for a in 0..LEAVES.len() {
            for b in 0..LEAVES.len() {
                if a != 1 && b != 0 {
                    v.push((bin(op, &leaf(a), &leaf(b)), String::new()));
                }
            }
        }
    }
    groups.push(("BINARY", v));
    // a function of a function
    let mut v = vec![];
    for g in UN {
        for f in UN {
            v.push((un(g, &un(f, &x)), String::new()));
        }
    }
    groups.push(("COMPOSED", v));
    // a function of an operation that cancels: y brings f(x) op y close to a chosen value
    let mut v = vec![];
    for f in ["id", "sin", "exp", "ln", "sqrt", "atan"] {
        for op in ["+", "-", "*", "/"] {
            let a = bin(op, &un(f, &x), &y);
            let inner = format!("{} {}", un(f, &x).1, op);
            for g in UN.iter().chain(&["id"]) {
                v.push((un(g, &a), inner.clone()));
            }
            let z: T = ("z".into(), "z".into());
            v.push((bin("pow", &a, &z), inner.clone()));
            v.push((bin("pow", &z, &a), inner.clone()));
            v.push((bin("log", &a, &z), inner.clone()));
            v.push((bin("log", &z, &a), inner.clone()));
            v.push((bin("%", &a, &z), inner.clone()));
            v.push((bin("/", &z, &a), inner.clone()));
            v.push((bin("*", &a, &a), inner.clone()));
        }
    }
    groups.push(("TARGET", v));
    // expressions that cancel by themselves
    let mut v = vec![];
    for (s, p) in [
        ("1 - cos(x)", "#1 x cos -"),
        ("(1 - cos(x)) / (x * x)", "#1 x cos - x x * /"),
        ("exp(x) - 1", "x exp #1 -"),
        ("(exp(x) - 1) / x", "x exp #1 - x /"),
        ("exp(x) - 1 - x", "x exp #1 - x -"),
        ("exp(x) - 1 - x - x*x/2", "x exp #1 - x - x x * #2 / -"),
        ("ln(1 + x)", "#1 x + ln"),
        ("ln(1 + x) - x", "#1 x + ln x -"),
        ("sqrt(x + 1) - sqrt(x)", "x #1 + sqrt x sqrt -"),
        ("sqrt(x*x + 1) - x", "x x * #1 + sqrt x -"),
        ("cbrt(x + 1) - cbrt(x)", "x #1 + cbrt x cbrt -"),
        ("sin(x) - x * cos(x)", "x sin x x cos * -"),
        ("sin(x) - x", "x sin x -"),
        ("sin(x) - x + x*x*x/6", "x sin x - x x * x * #6 / +"),
        ("tan(x) - sin(x)", "x tan x sin -"),
        ("atan(x) - x", "x atan x -"),
        ("pi/2 - atan(x)", "pi #2 / x atan -"),
        ("pi/2 - acos(x)", "pi #2 / x acos -"),
        ("acos(x) - asin(x)", "x acos x asin -"),
        ("tanh(x) - 1", "x tanh #1 -"),
        ("1 - tanh(x)", "#1 x tanh -"),
        ("cosh(x) - sinh(x)", "x cosh x sinh -"),
        ("asinh(x) - ln(2*x)", "x asinh #2 x * ln -"),
        ("acosh(x) - ln(2*x)", "x acosh #2 x * ln -"),
        ("atanh(x) - x", "x atanh x -"),
        ("pow(1 + x, recip(x))", "#1 x + x recip pow"),
        ("pow(1 + x, 1/x) - e", "#1 x + #1 x / pow e -"),
        ("pow(x, x) - 1", "x x pow #1 -"),
        ("x*x - y*y", "x x * y y * -"),
        ("(x - y) * (x + y)", "x y - x y + *"),
        ("(x - y) / (x + y)", "x y - x y + /"),
        ("sqrt(x*x - y*y)", "x x * y y * - sqrt"),
        ("ln(x) - ln(y)", "x ln y ln -"),
        ("ln(x/y)", "x y / ln"),
        ("exp(x) - exp(y)", "x exp y exp -"),
        ("sin(x) - sin(y)", "x sin y sin -"),
        ("cos(x) - cos(y)", "x cos y cos -"),
        ("atan(x) - atan(y)", "x atan y atan -"),
        ("x - y", "x y -"),
        ("(x - y) - (y - x)", "x y - y x - -"),
        ("x + y - x", "x y + x -"),
        ("(x + 1) - x - 0.999", "x #1 + x - #0.999 -"),
        ("x - sin(asin(x) + 1e-30)", "x x asin #1e-30 + sin -"),
        ("0.1 - \"0.1000000000000000000000000000000000000000000000000000001\"", "#0.1 #0.1000000000000000000000000000000000000000000000000000001 -"),
        ("exp(exp(x)) - exp(1)", "x exp exp #1 exp -"),
        ("sin(pi + x)", "pi x + sin"),
        ("cos(pi/2 + x)", "pi #2 / x + cos"),
        ("tan(pi/2 + x)", "pi #2 / x + tan"),
        ("sin(1e30 * pi + x)", "#1e30 pi * x + sin"),
        ("tan(22 * pi - x)", "#22 pi * x - tan"),
        ("exp(ln(x) * 1000)", "x ln #1000 * exp"),
        ("ln_10 - ln(10 + x)", "ln_10 #10 x + ln -"),
        ("ln_2 - ln(2 + x)", "ln_2 #2 x + ln -"),
        ("e - exp(1 + x)", "e #1 x + exp -"),
        ("log10(1 + x)", "#1 x + log10"),
        ("log2(1 + x) * ln_2 - ln(1 + x) + x*x", "#1 x + log2 ln_2 * #1 x + ln - x x * +"),
        ("log(1 + x, 1 - x)", "#1 x + #1 x - log"),
        ("log(1 + x, exp(x))", "#1 x + x exp log"),
        ("atanh(1 - x)", "#1 x - atanh"),
        ("atanh(tanh(x))", "x tanh atanh"),
        ("acos(1 - x)", "#1 x - acos"),
        ("acos(1 - x*x) / x", "#1 x x * - acos x /"),
        ("acos(cos(x)) - x + x*x", "x cos acos x - x x * +"),
        ("asin(1 - x) - pi/2", "#1 x - asin pi #2 / -"),
        ("asin(sin(x)) + x", "x sin asin x +"),
        ("acosh(1 + x)", "#1 x + acosh"),
        ("acosh(cosh(x)) + 1", "x cosh acosh #1 +"),
        ("ln(exp(x)) + 1", "x exp ln #1 +"),
        ("ln(exp(x))", "x exp ln"),
        ("log(pow(y, x), y)", "y x pow y log"),
        ("recip(recip(x) - recip(y))", "x recip y recip - recip"),
        ("-(x - y)", "x y - neg"),
        ("-x - -y", "x neg y neg -"),
        ("x + -y", "x y neg +"),
        ("((x)) - (((y)))", "x y -"),
        ("exp(x) % y", "x exp y %"),
        ("x % exp(y)", "x y exp %"),
        ("pi % x", "pi x %"),
        ("1e25 % pi", "#1e25 pi %"),
        ("x * y - y * x + 1", "x y * y x * - #1 +"),
        ("1/3 + 1/3 + 1/3 - 0.9999999999999999999999999999999999999", "#1 #3 / #1 #3 / + #1 #3 / + #0.9999999999999999999999999999999999999 -"),
    ] {
        v.push(((s.to_string(), p.to_string()), String::new()));
    }
    groups.push(("SELF", v));

    // variables of every name the macro might use itself, and of every type
    let names = [
        "p", "rm", "cc", "ctx", "emin", "emax", "errs", "ret", "arg", "arg1", "arg2", "p_wrk", "p_rnd", "newerr", "e1", "e2",
        "e3", "err", "p_arg", "n", "v",
    ];
    let mut named: Vec<(T, String)> = vec![];
    for n in names {
        let y = format!("let {n} = y;");
        for (s, p) in [
            (format!("x - {n}"), "x y -"),
            (format!("{n} - x"), "y x -"),
            (format!("{n} + sin(x) * {n}"), "y x sin y * +"),
            (format!("sin({n})"), "y sin"),
            (format!("exp({n}) - x"), "y exp x -"),
            (format!("pow(x, {n})"), "x y pow"),
            (format!("log({n}, x)"), "y x log"),
            (format!("ln({n}) % x"), "y ln x %"),
            (format!("acos({n}) / {n}"), "y acos y /"),
        ] {
            named.push(((s, p.to_string()), y.clone()));
        }
    }
    let mut typed: Vec<(T, String)> = vec![];
    for (decl, tok) in [
        ("0.1f64", "#0.1000000000000000055511151231257827021181583404541015625"),
        ("-7.25f32", "#-7.25"),
        ("5e-324f64", "#4.940656458412465441765687928682213723650598026143247644255856825006755072702087518652998363616359923797965646954457177309266567103559397963987747960107818781263007131903114045278458171678489821036887186360569987307230500063874091535649843873124733972731696151400317153853980741262385655911710266585566867681870395603106249319452715914924553293054565444011274801297099995419319894090804165633245247571478690147267801593552386115501348035264934720193790268107107491703332226844753335720832431936092382893458368060106011506169809753078342277318329247904982524730776375927247874656084778203734469699533647017972677717585125660551199131504891101451037862738167250955837389733598993664809941164205702637090279242767544565229087538682506419718265533447265625e-324"),
        ("127i8", "#127"),
        ("-32768i16", "#-32768"),
        ("200u8", "#200"),
        ("65535u16", "#65535"),
        ("-2147483648i32", "#-2147483648"),
        ("4294967295u32", "#4294967295"),
        ("-9223372036854775808i64", "#-9223372036854775808"),
        ("18446744073709551615u64", "#18446744073709551615"),
        ("-170141183460469231731687303715884105728i128", "#-170141183460469231731687303715884105728"),
        ("340282366920938463463374607431768211455u128", "#340282366920938463463374607431768211455"),
        ("\"0.1\"", "#0.1"),
        ("\"-1.5e-7\"", "#-1.5e-7"),
        ("\"123456789012345678901234567890.000000000000000000000000000000000000000000000000000000000001\"", "#123456789012345678901234567890.000000000000000000000000000000000000000000000000000000000001"),
    ] {
        for (s, p) in [
            ("v", "{}"),
            ("-v", "{} neg"),
            ("v - y", "{} y -"),
            ("x * v", "x {} *"),
            ("sin(v) + x", "{} sin x +"),
            ("v - 0.1", "{} #0.1 -"),
            ("v % x", "{} x %"),
            ("v - 340282366920938463463374607431768211454", "{} #340282366920938463463374607431768211454 -"),
            ("x - \"-1.5e-7\" + v", "x #-1.5e-7 - {} +"),
        ] {
            typed.push(((s.to_string(), p.replace("{}", tok)), format!("let v = {decl};")));
        }
    }
    let mut o = String::new();
    for (name, v) in [("NAMED", &named), ("TYPED", &typed)] {
        writeln!(o, "#[allow(unused)] pub mod g_{} {{ use super::*;", name.to_lowercase()).unwrap();
        for (i, ((s, _), d)) in v.iter().enumerate() {
            writeln!(o, "fn e{i}(x: &BigFloat, y: &BigFloat, z: &BigFloat, c: &mut Context) -> BigFloat {{ {d} expr!({s}, &mut *c) }}").unwrap();
        }
        writeln!(o, "pub const ALL: &[Ex] = &[").unwrap();
        for (i, ((s, p), d)) in v.iter().enumerate() {
            writeln!(o, "Ex {{ src: {s:?}, rpn: {p:?}, inner: {d:?}, f: e{i} }},").unwrap();
        }
        writeln!(o, "]; }}").unwrap();
    }
    writeln!(o, "pub struct Ex {{ pub src: &'static str, pub rpn: &'static str, pub inner: &'static str, pub f: F }}").unwrap();
    for (name, v) in &groups {
        writeln!(o, "#[allow(unused)] pub mod g_{} {{ use super::*;", name.to_lowercase()).unwrap();
        for (i, ((s, _), _)) in v.iter().enumerate() {
            writeln!(o, "fn e{i}(x: &BigFloat, y: &BigFloat, z: &BigFloat, c: &mut Context) -> BigFloat {{ expr!({s}, &mut *c) }}").unwrap();
        }
        writeln!(o, "pub const ALL: &[Ex] = &[").unwrap();
        for (i, ((s, p), inner)) in v.iter().enumerate() {
            writeln!(o, "Ex {{ src: {s:?}, rpn: {p:?}, inner: {inner:?}, f: e{i} }},").unwrap();
        }
        writeln!(o, "]; }}").unwrap();
    }
    let d = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{d}/gen.rs"), o).unwrap();
}
