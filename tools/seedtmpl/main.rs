use cairo_m_compiler_parser::SourceFile;
use cairo_m_compiler_semantic::db::*;
use std::collections::HashMap;
fn check(mods: &[(&str, &str)]) -> Vec<String> {
    let db = SemanticDatabaseImpl::default();
    let m: HashMap<String, SourceFile> = mods.iter().map(|(n, t)| (n.to_string(), SourceFile::new(&db, t.to_string(), format!("{n}.cm")))).collect();
    let c = Crate::new(&db, m, "main".into(), ".".into(), "t".into());
    project_validate_semantics(&db, c).iter().map(|d| format!("{:?} {:?} {}", d.code, d.span, d.message)).collect()
}
fn demo() {
    let d = check(&[("main", "fn f(n: felt) -> felt { loop { if n == 0 { return 1; } else { break; } } }")]);
    assert!(d.iter().any(|d| d.contains("MissingReturn")), "{d:?}");
}
fn main() {
    let t = std::thread::Builder::new().stack_size(1 << 28).spawn(demo).unwrap();
    if t.join().is_err() { std::process::exit(1); }
    println!("ok");
}
