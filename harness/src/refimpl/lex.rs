//! Reference lexer (maximal munch, hand written).

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    Kw(&'static str),
    Punct(&'static str),
    Op(&'static str),
    Name,
    Hole,
    Number,
    Str,
    Space,
    Newline,
    Comment,
    /// A stretch that is no token. Only its start is defined.
    Error,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tok {
    pub k: K,
    pub s: usize,
    pub e: usize,
}

pub const KEYWORDS: [&str; 18] = [
    "import", "from", "export", "let", "match", "with", "end", "if", "then", "else", "type", "int", "bool", "string",
    "true", "false", "fold", "rec",
];
const PUNCT2: [&str; 1] = ["->"];
const OP2: [&str; 5] = ["<=", ">=", "==", "!=", "|>"];
const PUNCT1: [&str; 9] = ["=", "|", ",", ".", "(", ")", ":", ";", "\\"];
const OP1: [&str; 7] = ["+", "-", "*", "/", "%", "<", ">"];

fn is_word(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_'
}

/// Lexes the whole text, including trivia.
pub fn lex(src: &str) -> Vec<Tok> {
    let b = src.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let s = i;
        let rest = &src[i..];
        let k = if b[i] == b' ' {
            while i < b.len() && b[i] == b' ' {
                i += 1;
            }
            K::Space
        } else if b[i] == b'\n' {
            i += 1;
            K::Newline
        } else if rest.starts_with("\r\n") {
            i += 2;
            K::Newline
        } else if rest.starts_with("--") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            K::Comment
        } else if b[i].is_ascii_digit() {
            while i < b.len() && is_word(b[i]) {
                i += 1;
            }
            K::Number
        } else if b[i].is_ascii_alphabetic() || b[i] == b'_' {
            while i < b.len() && is_word(b[i]) {
                i += 1;
            }
            match KEYWORDS.iter().find(|k| **k == &src[s..i]) {
                Some(k) => K::Kw(k),
                None => K::Name,
            }
        } else if b[i] == b'?' && i + 1 < b.len() && is_word(b[i + 1]) {
            i += 1;
            while i < b.len() && is_word(b[i]) {
                i += 1;
            }
            K::Hole
        } else if let Some(end) = string_end(b, i) {
            i = end;
            K::Str
        } else if let Some(p) = OP2.iter().find(|p| rest.starts_with(**p)) {
            i += 2;
            K::Op(p)
        } else if let Some(p) = PUNCT2.iter().find(|p| rest.starts_with(**p)) {
            i += 2;
            K::Punct(p)
        } else if let Some(p) = OP1.iter().find(|p| rest.starts_with(**p)) {
            i += 1;
            K::Op(p)
        } else if let Some(p) = PUNCT1.iter().find(|p| rest.starts_with(**p)) {
            i += 1;
            K::Punct(p)
        } else {
            i += rest.chars().next().unwrap().len_utf8();
            K::Error
        };
        out.push(Tok { k, s, e: i });
    }
    out
}

fn string_end(b: &[u8], i: usize) -> Option<usize> {
    if b[i] != b'"' {
        return None;
    }
    let mut j = i + 1;
    while j < b.len() {
        match b[j] {
            b'"' => return Some(j + 1),
            b'\n' | b'\\' => return None,
            _ => j += 1,
        }
    }
    None
}

/// Tokens the parser sees; `None` if the text has a lexical error.
pub fn significant(src: &str) -> Option<Vec<Tok>> {
    let mut v = Vec::new();
    for t in lex(src) {
        match t.k {
            K::Space | K::Newline | K::Comment => {}
            K::Error => return None,
            _ => v.push(t),
        }
    }
    Some(v)
}
