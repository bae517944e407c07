mod c_parse;
mod c_fmt;
mod c_text;
mod c_names;
mod c_incr;
mod c_diag;
mod c_proj;
mod c_mods;
mod c_dups;
mod c_lits;
mod c_flow;
mod c_stmts;
mod c_types;
mod reftype;
mod gen;
mod refnames;
mod imp;
mod reflex;
mod refparse;
mod sem;
mod tree;
mod util;
use util::Ctx;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id: &'static str = Box::leak(a[1].clone().into_boxed_str());
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    util::load_known();
    util::init(id);
    let ctx = Ctx::new(id, thorough);
    let rc = match id {
        "C01" => c_text::totality(&ctx),
        "C02" => c_text::tokens(&ctx),
        "C03" => c_parse::exprs(&ctx),
        "C06" => c_fmt::preserve(&ctx),
        "C07" => c_fmt::idempotent(&ctx),
        "C08" => c_fmt::comments(&ctx),
        "C09" => c_fmt::canon(&ctx),
        "C05" => c_text::layout(&ctx),
        "C10" => c_names::resolution(&ctx),
        "C11" => c_names::unused(&ctx),
        "C12" => c_types::exprs(&ctx),
        "C14" => c_flow::flow(&ctx),
        "C15" => c_lits::lits(&ctx),
        "C16" => c_dups::dups(&ctx),
        "C17" => c_mods::modules(&ctx),
        "C21" => c_proj::projects(&ctx),
        "C20" => c_diag::diags(&ctx),
        "C18" => c_incr::incremental(&ctx),
        "C19" => c_incr::delta(&ctx),
        "C13" => c_stmts::places(&ctx),
        "C04" => c_parse::stmts(&ctx),
        "parse" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let st = std::time::Instant::now();
            let r = imp::parse(&t).unwrap();
            println!("{:?}\n{:?} {:?}", r.tree.map(|t| t.show()), r.diags, st.elapsed());
            0
        }
        "ref" => {
            let r = refparse::parse_strict(&a[2]);
            println!("{:?}\n{:?}", r.as_ref().map(|t| t.show()), r.as_ref().map(|t| t.show_spans()));
            0
        }
        "sem" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let st = std::time::Instant::now();
            let r = sem::analyze1(&t);
            println!("{:?}", st.elapsed());
            for d in r.unwrap() { println!("{} {:?} {:?} {:?}: {}", if d.err {"E"} else {"w"}, d.code, d.span, t.get(d.span.0..d.span.1), d.msg); }
            let st = std::time::Instant::now();
            for _ in 0..200 { sem::analyze1(&t).unwrap(); }
            println!("{:?} each", st.elapsed() / 200);
            0
        }
        "fmt" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            print!("{}", imp::format(&t, &Default::default()).unwrap());
            0
        }
        _ => {
            eprintln!("unknown check {id}");
            2
        }
    };
    std::process::exit(rc);
}
