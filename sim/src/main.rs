//! Deterministic simulation of callers sharing a quadtree, with fault injection.
//!
//!   qtsim check C01              run the property's simulations (VERIF_SEED, VERIF_TIER), write evidence
//!   qtsim replay FILE            run one recorded program again, with its event log
//!   qtsim selftest [N]           determinism: N seeds per property, twice, different processes
//!   qtsim show C01 SEED I        print the program of run I
//!   qtsim scan C01 FROM N        run in this process and list the violation classes

mod check;
mod exec;
mod fine;
mod gen;
mod mem;
mod minim;
mod oracle;
mod rng;
mod sched;
mod spec;
mod sys;
mod world;

#[global_allocator]
static ALLOCATOR: mem::Counting = mem::Counting;

fn main() {
    std::panic::set_hook(Box::new(|i| {
        mem::outside(|| {
            exec::LAST_PANIC.with(|p| *p.borrow_mut() = format!("{i}").replace('\n', " "));
        })
    }));
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let prop = |i: usize| arg(i).trim_start_matches('C').parse::<u32>().unwrap_or(0);
    let code = match arg(1) {
        "check" => check::check(prop(2)),
        "replay" => check::replay(arg(2)),
        "inner" => check::inner(arg(2)),
        "minim" => check::minim_cmd(arg(2), arg(3), arg(4)),
        "worker" => check::worker(prop(2), num(3), num(4), num(5), num(6), arg(7), num(8)),
        "selftest" => check::selftest(if a.len() > 2 { num(2) } else { 400 }),
        "show" => {
            print!("{}", check::program(prop(2), num(3), num(4), 1).text());
            0
        }
        "scan" => check::scan(prop(2), num(3), num(4)),
        _ => {
            eprintln!("usage: qtsim check|replay|selftest|show|scan ...");
            3
        }
    };
    std::process::exit(code);
}
