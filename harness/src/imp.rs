//! The implementation, as the checks call it.
use crate::tree::{self, N};
use crate::util::guarded;
use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticSeverity};
use cairo_m_compiler_parser::{parse_file, Db as ParserDb, ParserDatabaseImpl, SourceFile};
use cairo_m_formatter::{format_source_file, FormatterConfig};

pub struct Parsed {
    pub tree: Option<N>,
    pub diags: Vec<Diagnostic>,
}

pub fn parse(src: &str) -> Result<Parsed, String> {
    guarded(src, || {
        let db = ParserDatabaseImpl::default();
        let f = SourceFile::new(&db, src.to_string(), "t.cm".to_string());
        let out = parse_file(&db as &dyn ParserDb, f);
        let has_err = out.diagnostics.iter().any(|d| d.severity == DiagnosticSeverity::Error);
        Parsed { tree: (!has_err).then(|| tree::module(&out.module)), diags: out.diagnostics.clone() }
    })
}

pub fn format(src: &str, cfg: &FormatterConfig) -> Result<String, String> {
    guarded(src, || {
        let db = ParserDatabaseImpl::default();
        let f = SourceFile::new(&db, src.to_string(), "t.cm".to_string());
        format_source_file(&db as &dyn ParserDb, f, cfg)
    })
}
