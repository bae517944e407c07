//! The semantic layer, as the checks call it.
use crate::util::guarded;
use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticSeverity};
use cairo_m_compiler_parser::SourceFile;
use cairo_m_compiler_semantic::db::{project_validate_semantics, Crate, SemanticDatabaseImpl};
use std::collections::HashMap;
use std::path::PathBuf;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct D {
    pub file: String,
    pub span: (usize, usize),
    pub code: String,
    pub err: bool,
    pub msg: String,
}
pub fn d(x: &Diagnostic) -> D {
    D {
        file: x.file_path.clone(),
        span: (x.span.start, x.span.end),
        code: format!("{:?}", x.code),
        err: x.severity == DiagnosticSeverity::Error,
        msg: x.message.clone(),
    }
}

pub fn make_crate(db: &SemanticDatabaseImpl, mods: &[(String, String)]) -> (Crate, HashMap<String, SourceFile>) {
    let mut m = HashMap::new();
    for (n, t) in mods {
        m.insert(n.clone(), SourceFile::new(db, t.clone(), format!("{}.cm", n.replace("::", "/"))));
    }
    (Crate::new(db, m.clone(), mods[0].0.clone(), PathBuf::from("."), "t".to_string()), m)
}

/// All diagnostics of a project.
pub fn analyze(mods: &[(String, String)]) -> Result<Vec<D>, String> {
    let case = mods.iter().map(|(n, t)| format!("--- {n}\n{t}")).collect::<Vec<_>>().join("\n");
    guarded(&case, || {
        let db = SemanticDatabaseImpl::default();
        let (c, _) = make_crate(&db, mods);
        project_validate_semantics(&db, c).iter().map(d).collect()
    })
}
pub fn analyze1(src: &str) -> Result<Vec<D>, String> {
    analyze(&[("main".to_string(), src.to_string())])
}

/// One module: its diagnostics, and for each identifier use (span) the name span of its definition.
pub struct Names {
    pub diags: Vec<D>,
    pub uses: Vec<((usize, usize), Option<(usize, usize)>)>,
}
pub fn names(src: &str) -> Result<Names, String> {
    guarded(src, || {
        let db = SemanticDatabaseImpl::default();
        let (c, _) = make_crate(&db, &[("main".to_string(), src.to_string())]);
        let diags = project_validate_semantics(&db, c).iter().map(d).collect();
        let idx = cairo_m_compiler_semantic::db::module_semantic_index(&db, c, "main".to_string()).unwrap();
        let uses = idx
            .identifier_usages()
            .iter()
            .enumerate()
            .map(|(i, u)| ((u.span.start, u.span.end), idx.get_use_definition(i).map(|d| (d.name_span.start, d.name_span.end))))
            .collect();
        Names { diags, uses }
    })
}

fn show<'a>(db: &'a SemanticDatabaseImpl, t: cairo_m_compiler_semantic::TypeId<'a>) -> String {
    use cairo_m_compiler_semantic::TypeData as X;
    match t.data(db) {
        X::Tuple(v) if v.len() == 1 => format!("({},)", show(db, v[0])),
        X::Tuple(v) => format!("({})", v.iter().map(|t| show(db, *t)).collect::<Vec<_>>().join(", ")),
        X::Pointer { element_type } => format!("{}*", show(db, element_type)),
        X::FixedArray { element_type, size } => format!("[{}; {}]", show(db, element_type), size),
        _ => cairo_m_compiler_semantic::TypeId::format_type(db, t),
    }
}

/// Diagnostics of one module and the inferred type of every `let` variable, by name.
pub fn let_types(src: &str) -> Result<(Vec<D>, HashMap<String, String>), String> {
    use cairo_m_compiler_semantic::{type_resolution::definition_semantic_type, DefinitionId, DefinitionKind};
    guarded(src, || {
        let db = SemanticDatabaseImpl::default();
        let (c, m) = make_crate(&db, &[("main".to_string(), src.to_string())]);
        let ds: Vec<D> = project_validate_semantics(&db, c).iter().map(d).collect();
        let mut out = HashMap::new();
        if !ds.iter().any(|d| d.code == "SyntaxError" || d.code == "LexicalError") {
            let idx = cairo_m_compiler_semantic::db::module_semantic_index(&db, c, "main".to_string()).unwrap();
            for (i, def) in idx.all_definitions() {
                if matches!(def.kind, DefinitionKind::Let(_)) {
                    let t = definition_semantic_type(&db, c, DefinitionId::new(&db, m["main"], i));
                    out.insert(def.name.clone(), show(&db, t));
                }
            }
        }
        (ds, out)
    })
}
