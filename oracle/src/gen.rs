//! Random derivations of the grammar: token sequences together with the tree they stand for.

use crate::dict::Dict;
use std::collections::HashMap;
use crate::grammar::{rules_in, Grammar, Rep, Step, Sym};
use crate::lexref::{FIRST_CLASS, T, TERMS};
use crate::rng::Rng;
use crate::tree::Tree;

#[derive(Clone, Debug, PartialEq)]
pub struct GTok {
    pub t: T,
    pub text: String,
}

impl GTok {
    pub fn fixed(t: T) -> GTok {
        assert!((t as usize) < FIRST_CLASS);
        GTok { t, text: TERMS[t as usize].to_string() }
    }
    pub fn new(t: T, text: &str) -> GTok {
        GTok { t, text: text.to_string() }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Sentence {
    pub toks: Vec<GTok>,
    pub forest: Vec<Tree>,
}

/// How one derivation is drawn.
#[derive(Clone, Debug)]
pub struct Style {
    pub depth: usize,
    pub max_tokens: usize,
    /// Chance (in 16ths) of another repetition, and of an optional part.
    pub more: usize,
    pub opt: usize,
    /// One repetition in the sentence is drawn this long.
    pub long: usize,
}

impl Style {
    pub fn random(r: &mut Rng) -> Style {
        let depth = match r.below(20) {
            0..=7 => r.range(6, 14),
            8..=15 => r.range(12, 26),
            16..=18 => r.range(20, 50),
            _ => r.range(50, 150),
        };
        let max_tokens = match r.below(10) {
            0..=3 => r.range(5, 40),
            4..=8 => r.range(30, 160),
            _ => r.range(100, 400),
        };
        Style {
            depth,
            max_tokens,
            more: r.range(2, 12),
            opt: r.range(2, 14),
            long: if r.chance(1, 25) { *r.pick(&[9usize, 17, 33, 65, 130, 257, 300]) } else { 0 },
        }
    }
}

pub struct Gen<'a> {
    pub g: &'a Grammar,
    pub dict: &'a Dict,
    pub rng: Rng,
    /// How often each alternative was used so far.
    pub used: Vec<u64>,
    /// An alternative to draw often.
    pub focus: Option<usize>,
    weights: Vec<u32>,
    toks: Vec<GTok>,
    style: Style,
    /// A repetition (by its address in the grammar) and how often it is drawn.
    forced: Option<(*const Sym, usize)>,
    /// Elements of lists are repeated.
    alike: bool,
    /// The few texts of each class that are used.
    few: Option<HashMap<T, Vec<String>>>,
    /// Texts of each class that are preferred.
    pub names: HashMap<T, Vec<String>>,
}

fn shift(t: &mut Tree, by: usize) {
    t.toks = (t.toks.0.wrapping_add(by), t.toks.1.wrapping_add(by));
    t.ch.iter_mut().for_each(|c| shift(c, by));
}

impl<'a> Gen<'a> {
    pub fn new(g: &'a Grammar, dict: &'a Dict, seed: u64) -> Self {
        let mut rng = Rng::new(seed);
        let style = Style::random(&mut rng);
        Gen { g, dict, rng, used: vec![0; g.nalts], focus: None, weights: vec![1; g.nalts], toks: vec![], style, forced: None, alike: false, few: None, names: HashMap::new() }
    }

    pub fn sentence(&mut self, rule: usize) -> Sentence {
        let style = Style::random(&mut self.rng);
        self.sentence_with(rule, style)
    }

    pub fn sentence_with(&mut self, rule: usize, style: Style) -> Sentence {
        self.style = style;
        self.alike = self.rng.chance(1, 6);
        self.few = self.rng.chance(1, 8).then(HashMap::new);
        let swarm = self.rng.chance(3, 4);
        for i in 0..self.weights.len() {
            self.weights[i] = if swarm { *self.rng.pick(&[0, 1, 4, 4, 16, 40]) } else { 8 };
            // Alternatives seen less often so far are drawn more often.
            if self.used[i] < 3 {
                self.weights[i] += 60;
            }
        }
        if let Some(i) = self.focus {
            self.weights[i] = 150;
        }
        self.toks = vec![];
        let d = self.style.depth;
        let forest = self.nt(rule, d);
        Sentence { toks: std::mem::take(&mut self.toks), forest }
    }

    fn nt(&mut self, n: usize, depth: usize) -> Vec<Tree> {
        let rule = &self.g.rules[n];
        let tight = self.toks.len() >= self.style.max_tokens || depth <= rule.height;
        let pick = if tight {
            let h = rule.height;
            let c: Vec<usize> = (0..rule.alts.len()).filter(|i| rule.alts[*i].height == h).collect();
            *self.rng.pick(&c)
        } else {
            let c: Vec<usize> = (0..rule.alts.len()).filter(|i| rule.alts[*i].height <= depth).collect();
            let total: usize = c.iter().map(|i| self.weights[rule.alts[*i].id] as usize + 1).sum();
            let mut x = self.rng.below(total);
            let mut got = c[0];
            for i in c {
                let w = self.weights[rule.alts[i].id] as usize + 1;
                if x < w {
                    got = i;
                    break;
                }
                x -= w;
            }
            got
        };
        let alt = &rule.alts[pick];
        self.used[alt.id] += 1;
        let first = self.toks.len();
        let mut ch = vec![];
        self.seq(&alt.syms, depth.saturating_sub(1), &mut ch);
        if alt.kind == "-" {
            return ch;
        }
        let mut t = Tree::node(alt.kind, ch);
        t.toks = (first, self.toks.len() - 1);
        vec![t]
    }

    fn seq(&mut self, syms: &'a [Sym], depth: usize, ch: &mut Vec<Tree>) {
        for s in syms {
            match s {
                Sym::T(t) => self.toks.push(GTok::fixed(*t)),
                Sym::Leaf(t) => {
                    let text = self.text(*t);
                    let mut l = Tree::leaf(&text);
                    l.toks = (self.toks.len(), self.toks.len());
                    self.toks.push(GTok { t: *t, text });
                    ch.push(l);
                }
                Sym::N(n) => ch.extend(self.nt(*n, depth)),
                Sym::Group(b, rep) => {
                    let room = self.toks.len() < self.style.max_tokens && self.g.body_height(b) <= depth;
                    let least = usize::from(*rep == Rep::Plus || *rep == Rep::One);
                    let forced = self.forced.filter(|f| f.0 == b.as_ptr());
                    if let Some((_, n)) = forced {
                        self.forced = None;
                        for _ in 0..n {
                            self.seq(b, depth, ch);
                        }
                        continue;
                    }
                    if self.forced.is_some_and(|f| holds(b, f.0)) {
                        self.seq(b, depth, ch);
                        continue;
                    }
                    let n = match rep {
                        Rep::One => 1,
                        Rep::Opt => usize::from(room && self.rng.chance(self.style.opt, 16)),
                        _ if !room => least,
                        _ if self.style.long > 0 && self.rng.chance(1, 6) => {
                            let n = self.style.long;
                            self.style.long = 0;
                            self.style.max_tokens += 2 * n;
                            n
                        }
                        _ => least + self.rng.geo(self.style.more, 16, 30),
                    };
                    let mut last = (0, 0);
                    for i in 0..n {
                        if i >= least && self.toks.len() > self.style.max_tokens {
                            break;
                        }
                        let start = (self.toks.len(), ch.len());
                        if i > 0 && self.alike && self.rng.chance(1, 2) {
                            // The same again.
                            let again = self.toks[last.0..start.0].to_vec();
                            self.toks.extend(again);
                            for k in last.1..start.1 {
                                let mut t = ch[k].clone();
                                shift(&mut t, start.0 - last.0);
                                ch.push(t);
                            }
                        } else {
                            self.seq(b, depth, ch);
                        }
                        last = start;
                    }
                }
            }
        }
    }

    fn text(&mut self, t: T) -> String {
        if let Some(l) = self.names.get(&t) {
            if !l.is_empty() && self.rng.chance(3, 5) {
                return self.rng.pick(l).clone();
            }
        }
        let Some(few) = &mut self.few else { return self.dict.text(t, &mut self.rng) };
        let l = few.entry(t).or_default();
        if l.len() < 2 {
            let s = self.dict.text(t, &mut self.rng);
            l.push(s.clone());
            return s;
        }
        self.rng.pick(l).clone()
    }

    /// A short sequence of tokens for some symbols.
    pub fn piece(&mut self, syms: &'a [Sym]) -> Vec<GTok> {
        self.toks = vec![];
        let more = self.rng.chance(1, 4);
        let height = self.g.body_height(syms);
        self.style = Style { depth: height, max_tokens: if more { 12 } else { 0 }, more: 2, opt: 3, long: 0 };
        let mut ch = vec![];
        self.seq(syms, height + usize::from(more), &mut ch);
        std::mem::take(&mut self.toks)
    }

    /// The given alternative with one of its repetitions drawn n times, everything else as short as can be.
    pub fn list(&mut self, rule: usize, alt: usize, group: &'a [Sym], n: usize) -> Sentence {
        self.toks = vec![];
        self.style = Style { depth: self.g.rules[rule].height + 3, max_tokens: if n > 2000 { 0 } else { usize::MAX }, more: 2, opt: 3, long: 0 };
        self.weights = (0..self.g.nalts).map(|_| *self.rng.pick(&[1, 4, 40])).collect();
        self.forced = Some((group.as_ptr(), n));
        let d = self.style.depth + 1;
        let forest = self.alt(rule, alt, &mut |g, syms, ch| g.seq(syms, d, ch));
        assert!(self.forced.is_none());
        Sentence { toks: std::mem::take(&mut self.toks), forest }
    }

    fn alt(&mut self, rule: usize, alt: usize, body: &mut dyn FnMut(&mut Self, &'a [Sym], &mut Vec<Tree>)) -> Vec<Tree> {
        let g: &'a Grammar = self.g;
        let alt = g.rules[rule].alts.iter().find(|a| a.id == alt).unwrap();
        let first = self.toks.len();
        let mut ch = vec![];
        body(self, &alt.syms, &mut ch);
        if alt.kind == "-" {
            return ch;
        }
        let mut t = Tree::node(alt.kind, ch);
        t.toks = (first, self.toks.len() - 1);
        vec![t]
    }

    /// The steps of a cycle, over and over, n times in all; everything else as short as can be.
    pub fn chain(&mut self, cycle: &[Step], n: usize) -> Sentence {
        self.toks = vec![];
        self.style = Style { depth: 0, max_tokens: 0, more: 0, opt: 0, long: 0 };
        let forest = self.link(cycle, 0, n);
        Sentence { toks: std::mem::take(&mut self.toks), forest }
    }

    fn link(&mut self, cycle: &[Step], k: usize, left: usize) -> Vec<Tree> {
        let s = cycle[k % cycle.len()];
        if left == 0 {
            return self.nt(s.rule, 0);
        }
        self.alt(s.rule, s.alt, &mut |g, syms, ch| {
            let mut at = 0;
            g.seq_link(syms, ch, &mut at, s.occurrence, cycle, k, left);
        })
    }

    #[allow(clippy::too_many_arguments)]
    fn seq_link(&mut self, syms: &'a [Sym], ch: &mut Vec<Tree>, at: &mut usize, target: usize, cycle: &[Step], k: usize, left: usize) {
        for s in syms {
            match s {
                Sym::N(_) => {
                    *at += 1;
                    if *at - 1 == target {
                        ch.extend(self.link(cycle, k + 1, left - 1));
                    } else {
                        self.seq(std::slice::from_ref(s), 0, ch);
                    }
                }
                Sym::Group(b, _) => {
                    let n = rules_in(b).len();
                    if *at <= target && target < *at + n {
                        self.seq_link(b, ch, at, target, cycle, k, left);
                    } else {
                        *at += n;
                        self.seq(std::slice::from_ref(s), 0, ch);
                    }
                }
                _ => self.seq(std::slice::from_ref(s), 0, ch),
            }
        }
    }
}

/// Whether a repetition stands somewhere in a symbol sequence.
fn holds(syms: &[Sym], p: *const Sym) -> bool {
    syms.iter().any(|s| match s {
        Sym::Group(b, _) => b.as_ptr() == p || holds(b, p),
        _ => false,
    })
}
