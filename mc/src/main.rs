mod adapt;
mod built;
mod custom;
mod docs;
mod lists;
mod evals;
mod evals2;
mod evals3;
mod evals4;
mod evalx;
mod gen;
mod props;
mod report;
mod spans;
mod stateful;
mod syntax;
mod syntax2;
mod syntax3;
mod threads;
mod watch;

fn main() {
    adapt::install_hook();
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: mc PROPERTY quick|thorough\n       mc replay FILE");
        std::process::exit(2);
    }
    if a[1] == "replay" {
        std::process::exit(props::replay(&a[2]));
    }
    if std::env::var("MC_WATCH").is_err() && std::env::var("MC_NOWATCH").is_err() {
        let limit = if a[2] == "thorough" { 240_000 } else { 90_000 };
        std::process::exit(watch::supervise(&a[1], &a[2], limit));
    }
    watch::attach();
    std::process::exit(props::run(&a[1], a[2] == "thorough"));
}
