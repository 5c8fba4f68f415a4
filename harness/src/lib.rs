pub mod app;
pub mod cfg;
pub mod checks;
pub mod engine;
pub mod gen;
pub mod irtext;
pub mod lsp;
pub mod oracle;
pub mod progs;
pub mod real;
pub mod refimpl;
