#[path = "../../src/util.rs"]
mod util;
mod explore;
mod server;
mod l_diag;
mod l_ask;
use util::Ctx;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id: &'static str = Box::leak(a[1].clone().into_boxed_str());
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    util::load_known();
    util::init(id);
    let ctx = Ctx::new(id, thorough);
    let rc = match id {
        "L01" => l_diag::settled(&ctx),
        "L02" => l_ask::consistent(&ctx),
        "L03" => l_ask::scopes(&ctx),
        _ => {
            eprintln!("unknown check {id}");
            2
        }
    };
    std::process::exit(rc);
}
