//! The enumeration of the configuration check, built against another configuration of the library.
#[path = "../../mc/src/cfgs.rs"]
mod cfgs;
#[path = "../../mc/src/ops.rs"]
#[allow(dead_code)]
mod ops;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let s = cfgs::Space::new(a[1] == "quick");
    if a[2] == "hash" {
        for (i, h) in s.hashes().iter().enumerate() {
            println!("{} {} {:x}", i, s.name(i), h);
        }
    } else {
        let i: usize = a[2].parse().unwrap();
        s.run(i, &mut |c, t| println!("{} => {}", c(), t));
    }
}
