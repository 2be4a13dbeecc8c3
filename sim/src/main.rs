mod chan;
mod exec;
mod fs;
mod gen;
mod kernel;
mod model;
mod oracle;
mod plan;
mod qr;
mod refimpl;
mod rng;
mod runner;

pub fn harness(m: &str) -> ! {
    eprintln!("harness: {}", m);
    std::process::exit(2)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |i: usize| a.get(i).cloned().unwrap_or_else(|| harness("missing argument"));
    let num = |i: usize| get(i).parse::<u64>().unwrap_or_else(|_| harness("not a number"));
    let args = || runner::Args {
        property: get(2),
        tier: get(3),
        seed: num(4),
        dir: get(5),
        workers: num(6),
        count: num(7),
        seconds: num(8),
        verif: a.get(9).cloned().unwrap_or_default(),
    };
    match get(1).as_str() {
        // check PROPERTY TIER SEED DIR WORKERS COUNT SECONDS VERIF
        "check" => std::process::exit(runner::check(&args())),
        "survey" => runner::survey(&args()),
        "worker" => runner::worker(&args(), num(9)),
        // replay DIR FILE
        "replay" => std::process::exit(runner::replay(&get(2), &get(3), false)),
        // one DIR PROPERTY SEED
        "one" => {
            let o = runner::one(&get(2), &get(3), num(4), true);
            std::process::exit(!o.viols.is_empty() as i32)
        }
        x => harness(&format!("unknown command {}", x)),
    }
}
