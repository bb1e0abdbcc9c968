//! The grammar as data (scilla.ebnf).

use crate::lexref::{term, T};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rep {
    One,
    Opt,
    Star,
    Plus,
}

#[derive(Clone, Debug)]
pub enum Sym {
    T(T),
    Leaf(T),
    N(usize),
    Group(Vec<Sym>, Rep),
}

#[derive(Debug)]
pub struct Alt {
    pub id: usize,
    pub kind: &'static str,
    pub syms: Vec<Sym>,
    pub height: usize,
    pub size: usize,
}

#[derive(Debug)]
pub struct Rule {
    pub name: &'static str,
    pub private: bool,
    pub nospan: bool,
    pub alts: Vec<Alt>,
    pub height: usize,
    pub size: usize,
}

#[derive(Debug)]
pub struct Grammar {
    pub rules: Vec<Rule>,
    pub nalts: usize,
}

const SRC: &str = include_str!("scilla.ebnf");

fn tokens(s: &'static str) -> Vec<&'static str> {
    let mut out = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let j = match b[i] {
            b' ' => {
                i += 1;
                continue;
            }
            b'"' => i + 2 + s[i + 1..].find('"').unwrap(),
            b'<' => i + 2 + s[i + 1..].find('>').unwrap(),
            b'(' | b')' | b'?' | b'*' | b'+' => i + 1,
            _ => i + s[i..].bytes().take_while(|c| c.is_ascii_alphanumeric()).count(),
        };
        assert!(j > i, "bad grammar text {:?}", &s[i..]);
        out.push(&s[i..j]);
        i = j;
    }
    out
}

impl Grammar {
    pub fn load() -> Grammar {
        let lines: Vec<&'static str> = SRC.lines().filter(|l| !l.starts_with('#') && !l.trim().is_empty()).collect();
        let names: Vec<&'static str> =
            lines.iter().filter(|l| !l.starts_with(' ')).map(|l| l.split(' ').next().unwrap()).collect();
        let index = |n: &str| names.iter().position(|x| *x == n).unwrap_or_else(|| panic!("no rule {}", n));
        let mut rules: Vec<Rule> = vec![];
        let mut id = 0;
        for l in &lines {
            if !l.starts_with(' ') {
                let w: Vec<&str> = l.split(' ').collect();
                rules.push(Rule {
                    name: names[rules.len()],
                    private: w.contains(&"private"),
                    nospan: w.contains(&"nospan"),
                    alts: vec![],
                    height: usize::MAX,
                    size: usize::MAX,
                });
                continue;
            }
            let l = l.trim();
            let cut = l.find(": ").unwrap();
            let kind = &l[..cut];
            let mut stack: Vec<Vec<Sym>> = vec![vec![]];
            for t in tokens(&l[cut + 2..]) {
                match t.as_bytes()[0] {
                    b'(' => stack.push(vec![]),
                    b')' => {
                        let g = stack.pop().unwrap();
                        stack.last_mut().unwrap().push(Sym::Group(g, Rep::One));
                    }
                    b'?' | b'*' | b'+' => {
                        let rep = match t {
                            "?" => Rep::Opt,
                            "*" => Rep::Star,
                            _ => Rep::Plus,
                        };
                        let top = stack.last_mut().unwrap();
                        let body = match top.pop().unwrap() {
                            Sym::Group(g, Rep::One) => g,
                            s => vec![s],
                        };
                        top.push(Sym::Group(body, rep));
                    }
                    b'"' => stack.last_mut().unwrap().push(Sym::T(term(&t[1..t.len() - 1]))),
                    b'<' => stack.last_mut().unwrap().push(Sym::Leaf(term(&t[1..t.len() - 1]))),
                    _ => {
                        let n = index(t);
                        stack.last_mut().unwrap().push(Sym::N(n))
                    }
                }
            }
            assert_eq!(stack.len(), 1);
            let syms = stack.pop().unwrap();
            rules.last_mut().unwrap().alts.push(Alt { id, kind, syms, height: usize::MAX, size: usize::MAX });
            id += 1;
        }
        let mut g = Grammar { rules, nalts: id };
        g.measure();
        g
    }

    pub fn rule(&self, name: &str) -> usize {
        self.rules.iter().position(|r| r.name == name).unwrap_or_else(|| panic!("no rule {}", name))
    }

    pub fn public(&self) -> Vec<usize> {
        (0..self.rules.len()).filter(|i| !self.rules[*i].private).collect()
    }

    fn seq(&self, s: &[Sym]) -> (usize, usize) {
        let (mut h, mut z) = (0usize, 0usize);
        for x in s {
            let (a, b) = match x {
                Sym::T(_) | Sym::Leaf(_) => (0, 1),
                Sym::N(n) => (self.rules[*n].height, self.rules[*n].size),
                Sym::Group(_, Rep::Opt) | Sym::Group(_, Rep::Star) => (0, 0),
                Sym::Group(b, _) => self.seq(b),
            };
            h = h.max(a);
            z = z.saturating_add(b);
        }
        (h, z)
    }

    /// Least height and token count of every alternative.
    fn measure(&mut self) {
        loop {
            let mut changed = false;
            for r in 0..self.rules.len() {
                for a in 0..self.rules[r].alts.len() {
                    let (h, z) = self.seq(&self.rules[r].alts[a].syms);
                    let h = h.saturating_add(1);
                    let alt = &mut self.rules[r].alts[a];
                    if (h, z) != (alt.height, alt.size) {
                        alt.height = h;
                        alt.size = z;
                        changed = true;
                    }
                }
                let h = self.rules[r].alts.iter().map(|a| a.height).min().unwrap();
                let z = self.rules[r].alts.iter().map(|a| a.size).min().unwrap();
                if (h, z) != (self.rules[r].height, self.rules[r].size) {
                    self.rules[r].height = h;
                    self.rules[r].size = z;
                    changed = true;
                }
            }
            if !changed {
                return;
            }
        }
    }

    /// Least height needed by a symbol sequence when its groups are taken once.
    pub fn body_height(&self, s: &[Sym]) -> usize {
        self.seq(s).0
    }

    /// Every repetition in the grammar: (rule, alternative, body).
    pub fn repetitions(&self) -> Vec<(usize, usize, &[Sym])> {
        fn find<'a>(syms: &'a [Sym], out: &mut Vec<&'a [Sym]>) {
            for s in syms {
                if let Sym::Group(b, rep) = s {
                    if matches!(rep, Rep::Star | Rep::Plus) {
                        out.push(b);
                    }
                    find(b, out);
                }
            }
        }
        let mut v = vec![];
        for (r, rule) in self.rules.iter().enumerate() {
            for a in &rule.alts {
                let mut g = vec![];
                find(&a.syms, &mut g);
                v.extend(g.into_iter().map(|b| (r, a.id, b)));
            }
        }
        v
    }

    /// For every place where a rule stands within itself, directly or not, the shortest way from there to itself;
    /// it starts with a rule that has a parser.
    pub fn cycles(&self) -> Vec<Vec<Step>> {
        let mut edges: Vec<(Step, usize)> = vec![];
        for (r, rule) in self.rules.iter().enumerate() {
            for a in &rule.alts {
                for (i, to) in rules_in(&a.syms).into_iter().enumerate() {
                    edges.push((Step { rule: r, alt: a.id, occurrence: i }, to));
                }
            }
        }
        let mut out = vec![];
        for (e, to) in &edges {
            let mut from: Vec<Option<usize>> = vec![None; self.rules.len()];
            let mut seen = vec![false; self.rules.len()];
            let mut queue = std::collections::VecDeque::from([*to]);
            seen[*to] = true;
            while let Some(x) = queue.pop_front() {
                for (i, (s, t)) in edges.iter().enumerate() {
                    if s.rule == x && !seen[*t] {
                        seen[*t] = true;
                        from[*t] = Some(i);
                        queue.push_back(*t);
                    }
                }
            }
            if !seen[e.rule] {
                continue;
            }
            let mut path = vec![];
            let mut x = e.rule;
            while x != *to {
                let (s, _) = edges[from[x].unwrap()];
                path.push(s);
                x = s.rule;
            }
            path.push(*e);
            path.reverse();
            let first = path.iter().position(|s| !self.rules[s.rule].private).unwrap();
            path.rotate_left(first);
            out.push(path);
        }
        out
    }
}

/// One step down the grammar: from a rule by an alternative to the rule at one of its places.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Step {
    pub rule: usize,
    pub alt: usize,
    pub occurrence: usize,
}

/// The rules that occur in a symbol sequence, in order.
pub fn rules_in(syms: &[Sym]) -> Vec<usize> {
    syms.iter()
        .flat_map(|s| match s {
            Sym::N(n) => vec![*n],
            Sym::Group(b, _) => rules_in(b),
            _ => vec![],
        })
        .collect()
}
