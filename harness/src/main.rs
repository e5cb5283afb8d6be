mod alloc;
mod case;
mod common;
mod confw;
mod fair;
mod flood;
mod leak;
mod rig;
mod soup;
mod threads;
mod gen_pair;
mod gen_raw;
mod mon;
mod net;
mod pair;
mod raw;
mod runner;
mod wire;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize, d: u64| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    let code = match arg(1).as_str() {
        "check" => runner::check(&arg(2)),
        "worker" => runner::worker(&arg(2), num(3, 0) as usize, num(4, 0), num(5, 1)),
        "one" => runner::one(&arg(2), &arg(3)),
        "replay" => runner::replay(&arg(2)),
        "stats" => runner::stats(&arg(2), num(3, 1000), num(4, 1)),
        "gen" => runner::gen(&arg(2), num(3, 0), num(4, 1), &arg(5), true),
        _ => {
            eprintln!("usage: yv check PROP | replay FILE | stats PROP N [SEED] | gen PROP IDX SEED FILE");
            2
        }
    };
    std::process::exit(code);
}
