#[path = "../../src/util.rs"]
mod util;
mod p_abi;
mod p_agg;
mod p_call;
mod p_expr;
mod p_flow;
mod p_mem;
mod p_mods;
mod p_ops;
mod p_run;
mod p_vm;
mod prog;
mod refvm;
mod run;
use util::Ctx;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id: &'static str = Box::leak(a[1].clone().into_boxed_str());
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    util::load_known();
    util::init(id);
    let ctx = Ctx::new(id, thorough);
    // a run that does not end fails after one segment
    cairo_m_runner::vm::VP_MAX_SEGMENTS.store(1, std::sync::atomic::Ordering::Relaxed);
    let rc = match id {
        "P01" => p_ops::operators(&ctx),
        "P02" => p_expr::expressions(&ctx),
        "P03" => p_flow::flow(&ctx),
        "P04" => p_call::calls(&ctx),
        "P05" => p_agg::aggregates(&ctx),
        "P06" => p_mem::memory(&ctx),
        "P07" => p_vm::instructions(&ctx),
        "P08" => p_vm::encoding(&ctx),
        "P09" => p_vm::memory(&ctx),
        "P10" => p_run::runs(&ctx),
        "P12" => p_mods::modules(&ctx),
        "P11" => p_abi::abi(&ctx),
        "run" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            for o in 0..2 {
                let st = std::time::Instant::now();
                match run::compile(&t, o) {
                    Err(e) => println!("{}: panic {e}", run::OPTS[o]),
                    Ok(Err(e)) => println!("{}: {}", run::OPTS[o], run::errtext(&e)),
                    Ok(Ok(p)) => {
                        let el = st.elapsed();
                        if std::env::var("ASM").is_ok() {
                            println!("{:#?}", p.data);
                        }
                        let args: Vec<_> = a[4..].iter().map(|s| cairo_m_common::abi_codec::parse_cli_arg(s).unwrap()).collect();
                        let st = std::time::Instant::now();
                        println!("{}: {} (compile {el:?}, run {:?})", run::OPTS[o], run::describe(&run::exec(&p, &a[3], &args, 100000)), st.elapsed());
                    }
                }
            }
            0
        }
        _ => {
            eprintln!("unknown check {id}");
            2
        }
    };
    std::process::exit(rc);
}
