#[path = "../../src/util.rs"]
mod util;
#[path = "../../pipe/src/refvm.rs"]
mod refvm;
mod complete;
mod common;
mod public;
mod bookkeeping;
mod binding;
mod rows;
mod sound;
mod gen;
use util::Ctx;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id: &'static str = Box::leak(a[1].clone().into_boxed_str());
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    util::load_known();
    util::init(id);
    let ctx = Ctx::new(id, thorough);
    cairo_m_runner::vm::VP_MAX_SEGMENTS.store(64, std::sync::atomic::Ordering::Relaxed);
    let rc = match id {
        "Q03" => sound::steps(&ctx),
        "Q02" => public::publics(&ctx),
        "Q04" => bookkeeping::books(&ctx),
        "Q05" => binding::binding(&ctx),
        "Q01" => complete::complete(&ctx),
        _ => {
            eprintln!("unknown check {id}");
            2
        }
    };
    std::process::exit(rc);
}
