mod alpha;
mod big;
mod case;
mod dec;
mod model;
mod mp;
mod props;
mod run;

fn main() {
    run::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = a.get(3).map(|s| s.as_str()).unwrap_or("quick");
            let ctx = run::start(&a[2], tier, seed, &root);
            if !props::run(ctx) {
                eprintln!("unknown property {}", a[2]);
                std::process::exit(2);
            }
            std::process::exit(run::finish(ctx));
        }
        Some("replay") => match case::Case::parse(&a[2], &props::exts()) {
            None => {
                eprintln!("cannot parse case");
                std::process::exit(2);
            }
            Some(c) => {
                let w = c.model();
                let g = match run::guarded(|| c.impl_eval()) {
                    Ok(g) => g,
                    Err(p) => case::Out::Panic(p),
                };
                println!("case     {}\nexpected {}\ngot      {}", c.text(), w.text(), g.text());
                std::process::exit(if w.accepts(&g) { 0 } else { 1 });
            }
        },
        Some("measure") => {
            let f = props::math::FNS.iter().find(|f| **f == a[2]).unwrap();
            props::math::measure(f);
        }
        // lines "sin BITS" on stdin; prints the reference value as ±m·2^e
        Some("oracle") => {
            for l in std::io::stdin().lines().map_while(Result::ok) {
                let (f, x) = l.split_once(' ').unwrap();
                let w = match f {
                    "e" => mp::e(),
                    "gamma" => mp::gamma(),
                    _ => props::math::oracle(f, case::parse_bits(x).unwrap()),
                };
                println!("{} {} {}", if w.neg { "-" } else { "+" }, w.m.to_dec(), w.e);
            }
        }
        Some("list") => {
            for p in props::ALL {
                println!("{p}");
            }
        }
        _ => {
            eprintln!("usage: mc check ID [tier] | replay CASE | list");
            std::process::exit(2);
        }
    }
}
