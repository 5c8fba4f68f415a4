//! A second, deliberately boring implementation of the tic language, written
//! from its behaviour and used as the oracle of the model checks: a lexer, a
//! strict recursive descent parser, a name resolver, an HM type checker, a
//! match checker and a big-step evaluator. It shares no code with /repo.
pub mod lex;
pub mod parse;
pub mod check;
pub mod eval;
