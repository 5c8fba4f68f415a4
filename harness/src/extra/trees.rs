//! C30: what the formatter prints for every sequence of its operations.
//! C31: the tree every sequence of syntax builder operations makes.
use crate::checks::text::sequences;
use crate::engine::{guard, Check, Cx};
use formatter::{FormatBuilder, Sticky};
use internal_iterator::InternalIterator;
use ticc_syntax::{cursor, NodeId, Pos, Span, SyntaxBuilder, SyntaxKind, TokenKind, TriviaKind};

// ---- formatter -----------------------------------------------------------

const FOPS: [&str; 14] = [
    "token", "to-prev", "to-next", "to-both", "newline", "large-newline", "space", "spaces-newlines", "start", "start-indents", "start-large",
    "start-large-indents", "finish", "not-sticky",
];

/// Something printed, and the nodes it is in: (number, indents), outermost first.
enum Ev {
    Tok { text: String, prev: bool, next: bool, at: Vec<usize> },
    Line { at: Vec<usize> },
}

fn expected(ops: &[usize]) -> String {
    // nodes: parent, large, indents
    let mut nodes: Vec<(usize, bool, bool)> = vec![(0, false, false)];
    let mut evs: Vec<(usize, Ev, bool)> = Vec::new();
    let mut cur = 0;
    let mut n = 0;
    let path = |nodes: &[(usize, bool, bool)], mut x: usize| {
        let mut p = Vec::new();
        while x != 0 {
            if nodes[x].2 {
                p.push(x);
            }
            x = nodes[x].0;
        }
        p.push(0);
        p.reverse();
        p
    };
    for o in ops {
        match FOPS[*o] {
            t @ ("token" | "to-prev" | "to-next" | "to-both" | "not-sticky") => {
                n += 1;
                let text = format!("t{n}");
                let at = path(&nodes, cur);
                evs.push((cur, Ev::Tok { text, prev: t == "to-prev" || t == "to-both", next: t == "to-next" || t == "to-both", at }, false));
            }
            "newline" | "spaces-newlines" => evs.push((cur, Ev::Line { at: path(&nodes, cur) }, false)),
            "large-newline" => evs.push((cur, Ev::Line { at: path(&nodes, cur) }, true)),
            "space" => {}
            "finish" => cur = nodes[cur].0,
            s => {
                nodes.push((cur, s.contains("large"), s.contains("indents")));
                cur = nodes.len() - 1;
            }
        }
    }
    // a node is as large as the nodes in it; children come after their parents
    for i in (1..nodes.len()).rev() {
        if nodes[i].1 {
            let p = nodes[i].0;
            nodes[p].1 = true;
        }
    }
    let mut out = String::new();
    let mut broken = vec![false; nodes.len()];
    let mut printed = vec![false; nodes.len()];
    let mut depth: Vec<Option<usize>> = vec![None; nodes.len()];
    depth[0] = Some(0);
    broken[0] = true;
    printed[0] = true;
    let mut at_start = true;
    let mut glue = true;
    // the depth of a node is known where it begins, which may be before its
    // first token: lines its parent breaks later are after it
    let enter = |at: &[usize], depth: &mut Vec<Option<usize>>, broken: &[bool]| {
        for w in at.windows(2) {
            if depth[w[1]].is_none() {
                depth[w[1]] = Some(depth[w[0]].unwrap() + broken[w[0]] as usize);
            }
        }
    };
    for (node, ev, large) in &evs {
        match ev {
            Ev::Line { at } => {
                enter(at, &mut depth, &broken);
                if (!*large || nodes[*node].1) && !at_start {
                    out.push('\n');
                    at_start = true;
                    broken[*at.last().unwrap()] = true;
                }
            }
            Ev::Tok { text, prev, next, at } => {
                enter(at, &mut depth, &broken);
                if at_start {
                    if !out.is_empty() {
                        let d = at.iter().rev().find(|n| printed[**n]).map_or(0, |n| depth[*n].unwrap());
                        out.push_str(&"    ".repeat(d));
                    }
                } else if !glue && !prev {
                    out.push(' ');
                }
                out.push_str(text);
                printed[*at.last().unwrap()] = true;
                glue = *next;
                at_start = false;
            }
        }
    }
    out
}

fn apply(ops: &[usize]) -> String {
    let mut b = FormatBuilder::new();
    let mut n = 0;
    for o in ops {
        let mut text = || {
            n += 1;
            format!("t{n}")
        };
        let node = |large, indents| formatter::Node { large, indents };
        match FOPS[*o] {
            "token" => b.add_token(&text()),
            "not-sticky" => b.add_sticky_token(&text(), Sticky::None),
            "to-prev" => b.add_sticky_token(&text(), Sticky::Prev),
            "to-next" => b.add_sticky_token(&text(), Sticky::Next),
            "to-both" => b.add_sticky_token(&text(), Sticky::Both),
            "newline" => b.add_newline(),
            "large-newline" => b.add_large_newline(),
            "space" => b.add_whitespace(" \t "),
            "spaces-newlines" => b.add_whitespace("  \n\n \n"),
            "finish" => b.finish_node(),
            s => b.start_node(node(s.contains("large"), s.contains("indents"))),
        }
    }
    b.finish()
}

fn format_case(cx: &mut Cx, ops: &[usize]) -> Result<(), String> {
    let real = guard(|| apply(ops)).map_err(|p| format!("panicked: {p}"))?;
    let want = expected(ops);
    cx.ops(ops.len() as u64 + 1);
    cx.validated(1);
    if real != want {
        return Err(format!("printed {real:?}, expected {want:?}"));
    }
    cx.state(crate::engine::hash(&real));
    Ok(())
}

fn c30(cx: &mut Cx) {
    let show = |v: &[usize]| v.iter().map(|o| FOPS[*o]).collect::<Vec<_>>().join(" ");
    // every operation
    let max = cx.pick(5, 6);
    cx.family("operations");
    cx.bound("operations_length", max);
    for n in 0..=max {
        sequences(FOPS.len(), n, &mut |v| cx.lazy(|| show(v), |cx, _| format_case(cx, v)));
    }
    // nesting and line breaks, deeper: each operation that matters to them once
    let few = [0, 4, 5, 9, 10, 12];
    let max = cx.pick(8, 10);
    cx.family("nesting");
    cx.bound("nesting_length", max);
    for n in 6..=max {
        let mut w = vec![0; n];
        sequences(few.len(), n, &mut |v| {
            for (a, b) in w.iter_mut().zip(v) {
                *a = few[*b];
            }
            cx.lazy(|| show(&w), |cx, _| format_case(cx, &w))
        });
    }
    // the same at depth: in nodes already open and with text already printed
    cx.family("inside");
    let max = cx.pick(4, 5);
    cx.bound("inside_length", max);
    for pre in [&[0, 9, 0, 4][..], &[0, 4, 9, 0, 4], &[9, 0, 4, 9, 0, 4, 9], &[8, 0, 4, 11, 0], &[0, 9, 8, 0, 4, 12, 9, 0, 4]] {
        for n in 1..=max {
            sequences(FOPS.len(), n, &mut |v| {
                let mut w = pre.to_vec();
                w.extend(v);
                w.push(0);
                cx.lazy(|| show(&w), |cx, _| format_case(cx, &w))
            });
        }
    }
}

pub static C30: Check = Check {
    id: "C30",
    run: c30,
    assumptions: &["Tokens given to the formatter are not empty and have no line breaks."],
    meaning: "a state is one printed text; a transition is one operation on the formatter",
    hang_s: 60,
    mem_mb: 0,
};

// ---- syntax trees --------------------------------------------------------

#[derive(Debug, Clone)]
enum El {
    Node { id: u32, kind: SyntaxKind, at: usize, kids: Vec<El> },
    Tok(TokenKind, usize, usize),
    Triv(TriviaKind, usize, usize),
}

const KINDS: [SyntaxKind; 3] = [SyntaxKind::LetExpr, SyntaxKind::Name, SyntaxKind::Error];
const SOURCE: &str = "aé\u{1F600}b\n☃c \u{1F600}deéf\u{0}g☃☃hij";

impl El {
    /// Where the element starts and ends without the trivia around it.
    fn span(&self) -> (usize, usize) {
        match self {
            El::Tok(_, s, e) | El::Triv(_, s, e) => (*s, *e),
            El::Node { at, kids, .. } => {
                let solid: Vec<(usize, usize)> = kids.iter().filter(|k| !matches!(k, El::Triv(..))).map(|k| k.span()).collect();
                match (solid.first(), solid.last()) {
                    (Some(a), Some(b)) => (a.0, b.1),
                    _ => (*at, *at),
                }
            }
        }
    }
    fn full(&self) -> (usize, usize) {
        match self {
            El::Tok(_, s, e) | El::Triv(_, s, e) => (*s, *e),
            El::Node { at, kids, .. } => (*at, kids.last().map_or(*at, |k| k.full().1)),
        }
    }
    fn flat<'a>(&'a self, to: &mut Vec<&'a El>) {
        to.push(self);
        if let El::Node { kids, .. } = self {
            for k in kids {
                k.flat(to);
            }
        }
    }
}

fn same(origin: usize, e: cursor::SyntaxElement<'_>, m: &El) -> Result<(), String> {
    let (s, t) = m.span();
    let check = |what: &str, span: Span, text: &str, (s, t): (usize, usize)| {
        let want = Span::new(Pos::new((s + origin) as u32), Pos::new((t + origin) as u32));
        if span != want || span.source_range() != (s + origin..t + origin) || span.source_len() != t - s {
            return Err(format!("{what} of {m:?} is {span:?}, expected {want:?}"));
        }
        if text != &SOURCE[s..t] {
            return Err(format!("text of {m:?} is {text:?}, expected {:?}", &SOURCE[s..t]));
        }
        Ok(())
    };
    match (e, m) {
        (cursor::SyntaxElement::Token(x), El::Tok(k, ..)) if x.kind() == *k => check("span", x.span(), x.text(), (s, t)),
        (cursor::SyntaxElement::Trivia(x), El::Triv(k, ..)) if x.kind() == *k => check("span", x.span(), x.text(), (s, t)),
        (cursor::SyntaxElement::Node(x), El::Node { id, kind, kids, .. }) if x.kind() == *kind && x.id() == NodeId(*id) => {
            check("span", x.span(), x.text(), (s, t))?;
            check("full span", x.full_span(), x.full_text(), m.full())?;
            if x.all_children().count() != kids.len() {
                return Err(format!("{m:?} has {} children", x.all_children().count()));
            }
            for (c, k) in x.all_children().zip(kids) {
                same(origin, c, k)?;
            }
            let nodes: Vec<u32> = x.children().map(|c| c.id().0).collect();
            let want: Vec<u32> = kids.iter().filter_map(|k| if let El::Node { id, .. } = k { Some(*id) } else { None }).collect();
            if nodes != want {
                return Err(format!("nodes in {m:?} are {nodes:?}"));
            }
            Ok(())
        }
        _ => Err(format!("another element in place of {m:?}")),
    }
}

const SOPS: [&str; 7] = ["start", "finish", "token", "token2", "empty", "space", "comment"];

/// None if the sequence does not leave exactly the root open.
fn model(ops: &[usize]) -> Option<(El, u32)> {
    let mut stack = vec![El::Node { id: 0, kind: SyntaxKind::Root, at: 0, kids: vec![] }];
    let (mut pos, mut ids) = (0, 0);
    for o in ops {
        let mut take = |n: usize| {
            let s = pos;
            pos += SOURCE[pos..].chars().take(n).map(|c| c.len_utf8()).sum::<usize>();
            (s, pos)
        };
        let el = match SOPS[*o] {
            "start" => {
                ids += 1;
                stack.push(El::Node { id: ids, kind: KINDS[ids as usize % 3], at: pos, kids: vec![] });
                continue;
            }
            "finish" => {
                if stack.len() == 1 {
                    return None;
                }
                stack.pop().unwrap()
            }
            "token" => take_tok(TokenKind::Ident, take(1)),
            "token2" => take_tok(TokenKind::Arrow, take(2)),
            "empty" => take_tok(TokenKind::Error, take(0)),
            "space" => triv(TriviaKind::Newline, take(1)),
            _ => triv(TriviaKind::Comment, take(2)),
        };
        if let Some(El::Node { kids, .. }) = stack.last_mut() {
            kids.push(el);
        }
    }
    if stack.len() == 1 {
        Some((stack.pop().unwrap(), ids))
    } else {
        None
    }
}

fn take_tok(k: TokenKind, (s, e): (usize, usize)) -> El {
    El::Tok(k, s, e)
}

fn triv(k: TriviaKind, (s, e): (usize, usize)) -> El {
    El::Triv(k, s, e)
}

fn tree_case(cx: &mut Cx, ops: &[usize], origin: usize, model: &El) -> Result<(), String> {
    let tree = guard(|| {
        let mut b = SyntaxBuilder::new(Pos::new(origin as u32), SOURCE);
        fn build(b: &mut SyntaxBuilder, e: &El, root: bool) {
            match e {
                El::Node { id, kind, kids, .. } => {
                    b.start_node(NodeId(*id), *kind);
                    for k in kids {
                        build(b, k, false);
                    }
                    if !root {
                        b.finish_node();
                    }
                }
                El::Tok(k, s, e) => b.add_token(*k, e - s),
                El::Triv(k, s, e) => b.add_trivia(*k, e - s),
            }
        }
        build(&mut b, model, true);
        b.finish()
    })
    .map_err(|p| format!("building panicked: {p}"))?;
    cx.ops(ops.len() as u64 + 2);
    cx.state(crate::engine::hash(&(ops, origin)));
    cx.validated(1);
    guard(|| {
        for tree in [tree.clone(), tree] {
            same(origin, cursor::SyntaxElement::Node(tree.root()), model)?;
            let mut flat = Vec::new();
            model.flat(&mut flat);
            let els: Vec<cursor::SyntaxElement> = tree.root().descendant_elements().collect();
            if els.len() != flat.len() {
                return Err(format!("{} elements in the tree, expected {}", els.len(), flat.len()));
            }
            for (e, m) in els.into_iter().zip(&flat) {
                same(origin, e, m)?;
            }
            let ids: Vec<u32> = tree.root().descendants().map(|n| n.id().0).collect();
            let want: Vec<u32> = flat.iter().filter_map(|m| if let El::Node { id, .. } = m { Some(*id) } else { None }).collect();
            if ids != want {
                return Err(format!("nodes of the tree are {ids:?}, expected {want:?}"));
            }
            // stopping early gives the first match only
            for id in &want {
                let found = tree.root().descendants().find_map(|n| (n.id().0 >= *id).then(|| n.id().0));
                if found != want.iter().copied().find(|x| x >= id) {
                    return Err(format!("first node from {id} is {found:?}"));
                }
            }
        }
        Ok(())
    })
    .map_err(|p| format!("reading panicked: {p}"))?
}

fn c31(cx: &mut Cx) {
    let max = cx.pick(8, 9);
    cx.family("operations");
    cx.bound("operations_length", max);
    for n in 0..=max {
        sequences(SOPS.len(), n, &mut |v| {
            if let Some((m, _)) = model(v) {
                for origin in [0, 7] {
                    cx.lazy(
                        || format!("at {origin}: {}", v.iter().map(|o| SOPS[*o]).collect::<Vec<_>>().join(" ")),
                        |cx, _| tree_case(cx, v, origin, &m),
                    );
                }
            }
        });
    }
    // deeper, with one operation of each sort
    let few = [0, 1, 2, 5];
    let max = cx.pick(12, 14);
    cx.family("nesting");
    cx.bound("nesting_length", max);
    for n in 8..=max {
        let mut w = vec![0; n];
        sequences(few.len(), n, &mut |v| {
            for (a, b) in w.iter_mut().zip(v) {
                *a = few[*b];
            }
            if let Some((m, _)) = model(&w) {
                cx.lazy(|| w.iter().map(|o| SOPS[*o]).collect::<Vec<_>>().join(" "), |cx, _| tree_case(cx, &w, 3, &m));
            }
        });
    }
}

pub static C31: Check = Check {
    id: "C31",
    run: c31,
    assumptions: &["Builder operations are used as they are meant to be: nodes nest and exactly the root is open at the end."],
    meaning: "a state is one tree; a transition is one operation on the builder or traversal of the tree",
    hang_s: 60,
    mem_mb: 0,
};
