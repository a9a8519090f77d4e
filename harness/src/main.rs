#[macro_use]
mod rt;
mod blockon;
mod cancel;
mod closure;
mod conn;
mod crowd;
mod dgram;
mod exec;
mod fault;
mod fdu;
mod foreign;
mod heap;
mod hostile;
mod idle;
mod life;
mod progress;
mod refuse;
mod streams;
mod timers;
mod tmodel;
mod twake;
mod world;

use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter()
            .position(|x| x == &format!("--{k}"))
            .and_then(|i| a.get(i + 1).cloned())
            .unwrap_or_else(|| d.to_string())
    };
    let prop = a.get(1).cloned().unwrap_or_default();
    rt::set_opts(rt::Opts {
        prop: prop.clone(),
        mode: get("mode", ""),
        seed: get("seed", "1").parse().unwrap(),
        worker: get("worker", "0").parse().unwrap(),
        secs: get("secs", "10").parse().unwrap(),
        thorough: get("tier", "quick") == "thorough",
        out: PathBuf::from(get("out", "/dev/null")),
        start: std::time::Instant::now(),
    });
    rt::install_panic_hook();
    rt::install_hooks(get("trace", "1") == "1");
    match prop.as_str() {
        "C01" => world::run(world::Cfg { churn: false }),
        "C02" => world::run(world::Cfg { churn: true }),
        "C03" => timers::run(),
        "C04" => twake::run(),
        "C05" => cancel::run(),
        "C06" => blockon::run(),
        "C07" => progress::run(),
        "C08" => streams::run(),
        "C09" => dgram::run(),
        "C10" => conn::run(),
        "C11" => life::run(),
        "C12" => hostile::run(),
        "C13" => fault::run(),
        "C15" => closure::run(),
        "C16" => idle::run(),
        "C17" => foreign::run(),
        _ => {
            eprintln!("unknown property {prop:?}");
            std::process::exit(2)
        }
    }
}
