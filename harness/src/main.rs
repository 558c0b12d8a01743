#![allow(dead_code)]
mod alg;
mod fold;
mod free;
mod graph;
mod poly;
mod rt;
mod util;

fn arg(name: &str, default: &str) -> String {
    let args: Vec<String> = std::env::args().collect();
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_else(|| default.to_string())
}
fn num(name: &str, default: i64) -> i64 {
    arg(name, &default.to_string()).parse().expect("number")
}

fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let seed = num("--seed", 1) as u64;
    let n = num("--n", 100) as usize;
    rt::open(&arg("--out", "/dev/null"));
    match cmd.as_str() {
        "graph-random" => graph::random(seed, n, num("--ops", 50), num("--first", 0)),
        "graph-free" => free::random(seed, n, num("--ops", 30), num("--profile", -1), num("--first", 0)),
        "graph-large" => graph::large(seed, n, num("--first", 0)),
        "graph-comb" => graph::comb(seed, n, num("--first", 0)),
        "graph-replay" => graph::replay(&arg("--in", ""), num("--first", 0), seed, arg("--queries", "0") == "1"),
        "poly-new" | "poly-diag" | "poly-tri" => {
            poly::run(&cmd[5..], seed, n, num("--max", 30), &arg("--in", ""), arg("--all", "0") == "1")
        }
        "alg-a01" | "alg-a02" | "alg-a03" | "alg-a04" | "alg-a05" | "alg-a06" | "alg-fine-a03"
        | "alg-fine-a04" | "alg-fine-a05" => alg::run(&cmd[4..], seed, n),
        "util-s01" | "util-s02" | "util-s03" | "util-s04" | "util-s05" | "util-fine-s01" | "util-fine-s02"
        | "util-fine-s03" | "util-fine-s04" | "util-fine-s05" => {
            util::run(&cmd[5..], seed, n, num("--side", 3))
        }
        "fold-replay" | "fold-random" | "fold-cuts" => fold::run(&cmd[5..], seed, n, &arg("--in", "")),
        "poly-fine-new" | "poly-fine-diag" | "poly-fine-tri" | "poly-fine-ops" => poly::fine_run(&cmd[10..], seed, n),
        "poly-ops" => poly::ops(seed, n),
        "poly-ops-replay" => poly::replay_ops(&arg("--in", "")),
        "poly-regular" => poly::regular(seed, n),
        x => {
            eprintln!("unknown command {}", x);
            std::process::exit(2);
        }
    }
    let c = rt::close();
    eprintln!("events {}", c);
}
