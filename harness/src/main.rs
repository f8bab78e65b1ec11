#![allow(dead_code)]
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod fsx;
mod gate;
mod msgs;
mod preempt;
mod rig;
mod sched;

#[global_allocator]
static ALLOC: preempt::CountingAlloc = preempt::CountingAlloc;
mod core;
mod interpose;
mod wires;

/// The program under test, for checks that run it as processes of its own.
mod program {
    include!("/repo/src/main.rs");
    pub fn go() {
        main()
    }
}

fn main() {
    if std::env::args().next().as_deref() == Some("over-there") {
        let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos() as u64).unwrap_or(0);
        interpose::seed_random(t ^ (std::process::id() as u64) << 40);
        return program::go();
    }
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = match std::env::var("VERIF_TIER").ok().as_deref() {
        Some("thorough") => core::Tier::Thorough,
        _ => core::Tier::Quick,
    };
    let tier = match args.get(2).map(|s| s.as_str()) {
        Some("thorough") => core::Tier::Thorough,
        Some("quick") => core::Tier::Quick,
        _ => tier,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    core::supervise(&id);
    interpose::seed_random(seed);
    interpose::seed_thread(0);
    interpose::self_test();
    core::install_panic_hook();
    let ctx = core::Ctx::new(&id, tier, seed);
    let code = match id.as_str() {
        "C01" => c01::run(&ctx),
        "C02" => c02::run(&ctx),
        "C03" => c03::run(&ctx),
        "C04" => c04::run(&ctx),
        "C05" => c05::run(&ctx),
        "C07" => c07::run(&ctx),
        "C21" => c21::run(&ctx),
        "C22" => c22::run(&ctx),
        "C20" => c20::run(&ctx),
        "C25" => c25::run(&ctx),
        "C26" => c26::run(&ctx),
        "C27" => c27::run(&ctx),
        "C24" => c24::run(&ctx),
        "C23" => c23::run(&ctx),
        "C08" => c08::run(&ctx),
        "C09" => c09::run(&ctx),
        "C10" => c10::run(&ctx),
        "C11" => c11::run(&ctx),
        "C12" => c12::run(&ctx),
        "C13" => c13::run(&ctx),
        "C14" => c14::run(&ctx),
        "C15" => c15::run(&ctx),
        "C16" => c16::run(&ctx),
        "C17" => c17::run(&ctx),
        "C18" => c18::run(&ctx),
        "C19" => c19::run(&ctx),
        "C06" => c06::run(&ctx),
        _ => {
            eprintln!("unknown property {:?}", id);
            2
        }
    };
    std::process::exit(code);
}
