use crate::engine::Check;
pub mod arith;
pub mod cli;
pub mod entry;
pub mod files;
pub mod front;
pub mod ir;
pub mod hover;
pub mod matches;
pub mod folds;
pub mod modules;
pub mod run;
pub mod server;
pub mod stdlib;
pub mod text;
pub mod threads;

pub fn all() -> Vec<&'static Check> {
    vec![&text::C01, &text::C02, &text::C03, &text::C04, &hover::C07, &matches::C10, &run::C08, &front::C05, &front::C06, &front::C09, &front::C26, &run::C11, &run::C12, &run::C13, &folds::C14, &ir::C16, &modules::C17, &files::C18, &entry::C23, &stdlib::C24, &arith::C25, &server::C19, &server::C20, &server::C21, &server::C22, &threads::C27, &cli::C28]
}
