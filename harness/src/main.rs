//! rkv <property> : runs the monitor of one property against the real library.
mod checks;
mod long;
mod monitor;
mod net;
mod pair;
mod report;
mod rt;
mod wire;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let root = std::env::var("RKV_ROOT").unwrap_or_else(|_| "/verif".into());
    rt::install_panic_monitor();
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).max(4);
    let rt = rt::runtime(workers, seed);
    let c = report::Ctx::new(&id, &tier, seed);
    let c2 = c.clone();
    let id2 = id.clone();
    rt.block_on(async move {
        rt::start_ticker();
        let h = tokio::spawn(async move {
            match id2.as_str() {
                "C01" => checks::c01::run(c2).await,
                "C02" => checks::c02::run(c2).await,
                "C03" => checks::c03::run(c2).await,
                "C04" => checks::c04::run(c2).await,
                "C05" => checks::c05::run(c2).await,
                "C06" => checks::c06::run(c2).await,
                "C07" => checks::c07::run(c2).await,
                "C08" => checks::c08::run(c2).await,
                "C09" => checks::c09::run(c2).await,
                "C10" => checks::c10::run(c2).await,
                "C11" => checks::c11::run(c2).await,
                "C12" => checks::c12::run(c2).await,
                "C13" => checks::c13::run(c2).await,
                "C14" => checks::c14::run(c2).await,
                "C15" => checks::c15::run(c2).await,
                "C16" => checks::c16::run(c2).await,
                "C17" => checks::c17::run(c2).await,
                "C18" => checks::c18::run(c2).await,
                "C19" => checks::c19::run(c2).await,
                "C20" => checks::c20::run(c2).await,
                "C21" => checks::c21::run(c2).await,
                "C22" => checks::c22::run(c2).await,
                "C23" => checks::c23::run(c2).await,
                "C24" => checks::c24::run(c2).await,
                "C25" => checks::c25::run(c2).await,
                "C26" => checks::c26::run(c2).await,
                "C27" => checks::c27::run(c2).await,
                "C28" => checks::c28::run(c2).await,
                "C29" => checks::c29::run(c2).await,
                "C30" => checks::c30::run(c2).await,
                "C31" => checks::c31::run(c2).await,
                "C32" => checks::c32::run(c2).await,
                "C33" => checks::c33::run(c2).await,
                "logchild" => checks::c29::child(c2).await,
                x => panic!("unknown property {x}"),
            }
        });
        let _ = h.await;
    });
    if id == "logchild" {
        std::process::exit(0);
    }
    c.take_panics("library");
    let code = c.finish(&root);
    // tasks of connections that a broken library left hanging must not keep the process alive
    std::process::exit(code);
}
