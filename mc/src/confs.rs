//! C32: the other configurations of the library give the results of the default one.
use crate::cfgs::Space;
use crate::core::*;
use std::collections::HashMap;
use std::process::Command;

const CONFS: [(&str, &str); 3] = [("n0", "no features"), ("n1", "std only"), ("n2", "random and serde without std")];

pub fn c32(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one operation on one argument tuple executed under the default configuration and under another one, all details of the results (every word, flag, error, text) hashed and compared per block of tuples that share the operation and the first argument; nontrivial = all. Differing blocks are expanded to the differing tuples.".into();
    let tier = if r.quick() { "quick" } else { "thorough" };
    let s = Space::new(r.quick());
    let dir = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/.target".into());
    let prog = |c: usize| format!("{}/{}/release/mcn", dir, CONFS[c].0);
    let tables: Vec<Result<HashMap<String, u64>, String>> = (0..CONFS.len())
        .map(|c| {
            let o = Command::new(prog(c)).args([tier, "hash"]).output().map_err(|e| format!("cannot run: {}", e))?;
            if !o.status.success() {
                return Err(format!("enumeration ended with {}", o.status));
            }
            Ok(String::from_utf8_lossy(&o.stdout)
                .lines()
                .filter_map(|l| {
                    let f: Vec<&str> = l.split(' ').collect();
                    Some((f.get(1)?.to_string(), u64::from_str_radix(f.get(2)?, 16).ok()?))
                })
                .collect())
        })
        .collect();
    let indices: Vec<usize> = (0..s.len()).collect();
    r.space(
        "blocks",
        &[indices.len()],
        |i| format!("block {}", s.name(i[0])),
        |i, w| {
            let b = i[0];
            let name = s.name(b);
            let (h, n) = s.hash(b);
            for c in 0..CONFS.len() {
                match &tables[c] {
                    Err(e) => {
                        if b == 0 {
                            w.fail(format!("configuration \"{}\": {}", CONFS[c].1, e));
                        }
                    }
                    Ok(t) => match t.get(&name) {
                        // formatting traits and FromStr exist with std only
                        None if c != 1 && (name.starts_with("display#") || name.starts_with("from_str#")) => {}
                        None => w.fail(format!("configuration \"{}\" lacks the block", CONFS[c].1)),
                        Some(x) => {
                            w.evals += n;
                            w.nontriv += n;
                            if *x != h {
                                let mut mine = vec![];
                                s.run(b, &mut |k, t| mine.push(format!("{} => {}", k(), t)));
                                let other = Command::new(prog(c)).args([tier, &index_of(c, &s, &name)]).output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
                                let d = mine.iter().zip(other.lines()).find(|(a, b)| a != b).map(|(a, b)| format!("default: {} | {}: {}", a, CONFS[c].1, b)).unwrap_or_else(|| "results differ from run to run".into());
                                w.fail(d);
                            }
                        }
                    },
                }
            }
        },
    );
    let mut e = r.extra.lock().unwrap();
    e.insert("configurations compared with the default one".into(), CONFS.iter().map(|c| c.1).collect::<Vec<_>>().into());
}

/// the operations of every configuration come in the same order, those with std only last
fn index_of(_c: usize, s: &Space, name: &str) -> String {
    (0..s.len()).find(|&b| s.name(b) == name).unwrap_or(0).to_string()
}
