//! Exhaustive enumeration of the sentences of a small grammar by derivation
//! size. Holes are written `<X>` with a one-letter nonterminal.
use std::collections::HashMap;
use std::rc::Rc;

enum Part {
    Text(&'static str),
    Hole(char),
}

struct Rule {
    cost: usize,
    parts: Vec<Part>,
    holes: Vec<char>,
}

pub struct Cfg {
    rules: HashMap<char, Vec<Rule>>,
    min: HashMap<char, usize>,
    memo: HashMap<(char, usize), Rc<Vec<Rc<str>>>>,
}

impl Cfg {
    /// Rules are (nonterminal, cost, text).
    pub fn new(rules: &[(char, usize, &'static str)]) -> Cfg {
        let mut m: HashMap<char, Vec<Rule>> = HashMap::new();
        for (nt, cost, text) in rules {
            let mut parts = Vec::new();
            let mut holes = Vec::new();
            let b = text.as_bytes();
            let mut start = 0;
            let mut i = 0;
            while i < b.len() {
                if b[i] == b'<' && i + 2 < b.len() && b[i + 2] == b'>' && b[i + 1].is_ascii_alphabetic() {
                    if start < i {
                        parts.push(Part::Text(&text[start..i]));
                    }
                    parts.push(Part::Hole(b[i + 1] as char));
                    holes.push(b[i + 1] as char);
                    i += 3;
                    start = i;
                } else {
                    i += 1;
                }
            }
            if start < b.len() {
                parts.push(Part::Text(&text[start..]));
            }
            m.entry(*nt).or_default().push(Rule { cost: *cost, parts, holes });
        }
        // least size of each nonterminal
        let mut min: HashMap<char, usize> = HashMap::new();
        loop {
            let mut changed = false;
            for (nt, rs) in &m {
                for r in rs {
                    let mut s = Some(r.cost);
                    for h in &r.holes {
                        s = match (s, min.get(h)) {
                            (Some(a), Some(b)) => Some(a + b),
                            _ => None,
                        };
                    }
                    if let Some(s) = s {
                        if min.get(nt).is_none_or(|o| s < *o) {
                            min.insert(*nt, s);
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        Cfg { rules: m, min, memo: HashMap::new() }
    }

    fn list(&mut self, nt: char, size: usize) -> Rc<Vec<Rc<str>>> {
        if let Some(v) = self.memo.get(&(nt, size)) {
            return v.clone();
        }
        let mut out: Vec<Rc<str>> = Vec::new();
        self.each(nt, size, &mut |s| out.push(s().into()));
        let v = Rc::new(out);
        self.memo.insert((nt, size), v.clone());
        v
    }

    /// Calls `k` with every sentence of exactly this size.
    pub fn each(&mut self, nt: char, size: usize, k: &mut dyn FnMut(&dyn Fn() -> String)) {
        let n = self.rules.get(&nt).map(|r| r.len()).unwrap_or_else(|| panic!("no rule {nt}"));
        for i in 0..n {
            let (cost, holes) = {
                let r = &self.rules[&nt][i];
                (r.cost, r.holes.clone())
            };
            if cost > size {
                continue;
            }
            let mins: Vec<usize> = holes.iter().map(|h| self.min[h]).collect();
            let mut sizes = vec![0; holes.len()];
            self.split(nt, i, &holes, &mins, 0, size - cost, &mut sizes, k);
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn split(&mut self, nt: char, rule: usize, holes: &[char], mins: &[usize], at: usize, left: usize, sizes: &mut Vec<usize>, k: &mut dyn FnMut(&dyn Fn() -> String)) {
        if at == holes.len() {
            if left != 0 {
                return;
            }
            let lists: Vec<Rc<Vec<Rc<str>>>> = holes.iter().zip(sizes.iter()).map(|(h, s)| self.list(*h, *s)).collect();
            if lists.iter().any(|l| l.is_empty()) {
                return;
            }
            let r = &self.rules[&nt][rule];
            let mut ix = vec![0usize; holes.len()];
            loop {
                k(&|| {
                    let mut s = String::new();
                    let mut h = 0;
                    for p in &r.parts {
                        match p {
                            Part::Text(t) => s.push_str(t),
                            Part::Hole(_) => {
                                s.push_str(&lists[h][ix[h]]);
                                h += 1;
                            }
                        }
                    }
                    s
                });
                let mut j = holes.len();
                loop {
                    if j == 0 {
                        return;
                    }
                    j -= 1;
                    ix[j] += 1;
                    if ix[j] < lists[j].len() {
                        break;
                    }
                    ix[j] = 0;
                }
            }
        }
        let rest: usize = mins[at + 1..].iter().sum();
        if left < mins[at] + rest {
            return;
        }
        let (lo, hi) = if at + 1 == holes.len() { (left, left) } else { (mins[at], left - rest) };
        for s in lo..=hi {
            sizes[at] = s;
            self.split(nt, rule, holes, mins, at + 1, left - s, sizes, k);
        }
    }

    /// Every sentence of size up to `max`.
    pub fn upto(&mut self, nt: char, max: usize, k: &mut dyn FnMut(&dyn Fn() -> String)) {
        for s in 0..=max {
            self.each(nt, s, k);
        }
    }

    pub fn counts(&mut self, nt: char, max: usize) -> Vec<usize> {
        (0..=max)
            .map(|s| {
                let mut c = 0;
                self.each(nt, s, &mut |_| c += 1);
                c
            })
            .collect()
    }
}
