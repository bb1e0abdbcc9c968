//! Earley recogniser for the reference grammar: membership, first token that cannot continue,
//! acceptable continuations, and the tree of an accepted sentence.

use crate::grammar::{Grammar, Rep, Sym};
use crate::lexref::{NTERM, T};
use crate::tree::Tree;

#[derive(Clone, Copy, Debug, PartialEq)]
enum B {
    T(T, bool),
    N(u32),
}

struct Prod {
    lhs: u32,
    rhs: Vec<B>,
    kind: Option<&'static str>,
    dotted: u32,
}

pub struct Earley {
    prods: Vec<Prod>,
    by_lhs: Vec<Vec<u32>>,
    nullable: Vec<bool>,
    ndotted: u32,
}

#[derive(Clone, Copy)]
struct Item {
    prod: u32,
    dot: u16,
    origin: u32,
    /// The item this one was advanced from, and the completed item it was advanced over.
    prev: (u32, u32),
    child: Option<(u32, u32)>,
    next_waiting: u32,
}

const NONE: u32 = u32::MAX;

struct Set {
    items: Vec<Item>,
    waiting: Vec<u32>,
    seen: std::collections::HashSet<u64, std::hash::BuildHasherDefault<Fast>>,
}

#[derive(Default)]
pub struct Fast(u64);
impl std::hash::Hasher for Fast {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (x ^ (x >> 29)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 ^= self.0 >> 32;
    }
}

pub struct Outcome {
    pub accepted: bool,
    /// Index of the first token that no sentence of the rule can have there (the length: end of input).
    pub fail_at: usize,
    /// Terminals acceptable at that point.
    pub expected: Vec<T>,
    /// The sentence up to the failure is itself a sentence.
    pub complete_prefix: bool,
    sets: Vec<Set>,
    goal: Option<(u32, u32)>,
}

impl Earley {
    pub fn new(g: &Grammar) -> Earley {
        let mut e = Earley { prods: vec![], by_lhs: vec![vec![]; g.rules.len()], nullable: vec![], ndotted: 0 };
        for (i, r) in g.rules.iter().enumerate() {
            for a in &r.alts {
                let rhs = e.lower(&a.syms);
                e.add(i as u32, rhs, Some(a.kind));
            }
        }
        e.nullable = vec![false; e.by_lhs.len()];
        loop {
            let mut changed = false;
            for p in &e.prods {
                let n = p.rhs.iter().all(|s| matches!(s, B::N(n) if e.nullable[*n as usize]));
                if n && !e.nullable[p.lhs as usize] {
                    e.nullable[p.lhs as usize] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        e
    }

    fn add(&mut self, lhs: u32, rhs: Vec<B>, kind: Option<&'static str>) {
        let n = rhs.len() as u32 + 1;
        self.by_lhs[lhs as usize].push(self.prods.len() as u32);
        self.prods.push(Prod { lhs, rhs, kind, dotted: self.ndotted });
        self.ndotted += n;
    }

    fn lower(&mut self, syms: &[Sym]) -> Vec<B> {
        let mut out = vec![];
        for s in syms {
            match s {
                Sym::T(t) => out.push(B::T(*t, false)),
                Sym::Leaf(t) => out.push(B::T(*t, true)),
                Sym::N(n) => out.push(B::N(*n as u32)),
                Sym::Group(b, rep) => {
                    let body = self.lower(b);
                    let n = self.by_lhs.len() as u32;
                    self.by_lhs.push(vec![]);
                    let mut rec = vec![B::N(n)];
                    rec.extend(body.iter().cloned());
                    match rep {
                        Rep::One => self.add(n, body, None),
                        Rep::Opt => {
                            self.add(n, vec![], None);
                            self.add(n, body, None);
                        }
                        Rep::Star => {
                            self.add(n, vec![], None);
                            self.add(n, rec, None);
                        }
                        Rep::Plus => {
                            self.add(n, body, None);
                            self.add(n, rec, None);
                        }
                    }
                    out.push(B::N(n));
                }
            }
        }
        out
    }

    fn push(&self, set: &mut Set, it: Item) {
        let key = ((self.prods[it.prod as usize].dotted + it.dot as u32) as u64) << 32 | it.origin as u64;
        if !set.seen.insert(key) {
            return;
        }
        let idx = set.items.len() as u32;
        let mut it = it;
        if let Some(B::N(n)) = self.prods[it.prod as usize].rhs.get(it.dot as usize) {
            it.next_waiting = set.waiting[*n as usize];
            set.waiting[*n as usize] = idx;
        }
        set.items.push(it);
    }

    fn new_set(&self) -> Set {
        Set { items: vec![], waiting: vec![NONE; self.by_lhs.len()], seen: Default::default() }
    }

    pub fn run(&self, rule: usize, toks: &[T]) -> Outcome {
        let mut sets: Vec<Set> = Vec::with_capacity(toks.len() + 1);
        let mut cur = self.new_set();
        for p in &self.by_lhs[rule] {
            self.push(&mut cur, Item { prod: *p, dot: 0, origin: 0, prev: (NONE, NONE), child: None, next_waiting: NONE });
        }
        let mut k = 0usize;
        loop {
            let mut goal = None;
            let mut i = 0;
            let ku = k as u32;
            while i < cur.items.len() {
                let it = cur.items[i];
                let p = &self.prods[it.prod as usize];
                match p.rhs.get(it.dot as usize) {
                    Some(B::T(..)) => {}
                    Some(B::N(n)) => {
                        for q in &self.by_lhs[*n as usize] {
                            self.push(&mut cur, Item { prod: *q, dot: 0, origin: ku, prev: (NONE, NONE), child: None, next_waiting: NONE });
                        }
                        if self.nullable[*n as usize] {
                            self.push(&mut cur, Item { dot: it.dot + 1, prev: (ku, i as u32), child: None, next_waiting: NONE, ..it });
                        }
                    }
                    None => {
                        if p.lhs as usize == rule && it.origin == 0 {
                            goal = Some((ku, i as u32));
                        }
                        // Completions over nothing are covered by the nullable step above.
                        if it.origin != ku {
                            let mut w = sets[it.origin as usize].waiting[p.lhs as usize];
                            while w != NONE {
                                let from = sets[it.origin as usize].items[w as usize];
                                self.push(&mut cur, Item { dot: from.dot + 1, prev: (it.origin, w), child: Some((ku, i as u32)), next_waiting: NONE, ..from });
                                w = from.next_waiting;
                            }
                        }
                    }
                }
                i += 1;
            }
            let mut next = self.new_set();
            if k < toks.len() {
                for (i, it) in cur.items.iter().enumerate() {
                    if let Some(B::T(t, _)) = self.prods[it.prod as usize].rhs.get(it.dot as usize) {
                        if *t == toks[k] {
                            self.push(&mut next, Item { dot: it.dot + 1, prev: (ku, i as u32), child: None, next_waiting: NONE, ..*it });
                        }
                    }
                }
            }
            let stop = next.items.is_empty();
            if stop {
                let accepted = k == toks.len() && goal.is_some();
                let mut exp = vec![false; NTERM];
                for it in &cur.items {
                    if let Some(B::T(t, _)) = self.prods[it.prod as usize].rhs.get(it.dot as usize) {
                        exp[*t as usize] = true;
                    }
                }
                sets.push(cur);
                return Outcome {
                    accepted,
                    fail_at: k,
                    expected: (0..NTERM).filter(|i| exp[*i]).map(|i| i as T).collect(),
                    complete_prefix: goal.is_some(),
                    sets,
                    goal,
                };
            }
            sets.push(cur);
            cur = next;
            k += 1;
        }
    }

    /// The tree of an accepted sentence.
    pub fn tree(&self, o: &Outcome, text: &dyn Fn(usize) -> String) -> Vec<Tree> {
        assert!(o.accepted);
        let mut out = vec![];
        self.build(o, o.goal.unwrap(), text, &mut out);
        out
    }

    fn build(&self, o: &Outcome, at: (u32, u32), text: &dyn Fn(usize) -> String, out: &mut Vec<Tree>) {
        let done = o.sets[at.0 as usize].items[at.1 as usize];
        let p = &self.prods[done.prod as usize];
        // Steps of the item, from last to first.
        let mut steps: Vec<(usize, Option<(u32, u32)>, u32)> = vec![];
        let mut cur = at;
        for d in (0..done.dot as usize).rev() {
            let it = o.sets[cur.0 as usize].items[cur.1 as usize];
            steps.push((d, it.child, cur.0));
            cur = it.prev;
        }
        let mut ch = vec![];
        for (d, child, end) in steps.into_iter().rev() {
            match p.rhs[d] {
                B::T(_, false) => {}
                B::T(_, true) => {
                    let i = end as usize - 1;
                    let mut l = Tree::leaf(&text(i));
                    l.toks = (i, i);
                    ch.push(l);
                }
                B::N(_) => {
                    if let Some(c) = child {
                        self.build(o, c, text, &mut ch);
                    }
                }
            }
        }
        match p.kind {
            None | Some("-") => out.extend(ch),
            Some(k) => {
                let mut t = Tree::node(k, ch);
                t.toks = (done.origin as usize, at.0 as usize - 1);
                out.push(t);
            }
        }
    }
}

#[cfg(test)]
mod tests {
    use crate::{dict::Dict, earley::Earley, gen::Gen, grammar::Grammar, layout, rng::Rng, tree::diff_shape};

    /// Generator, layout, reference lexer and recogniser agree with one another.
    #[test]
    fn oracles_agree() {
        let g = Grammar::load();
        let d = Dict::load(std::path::Path::new("/repo/src"));
        let e = Earley::new(&g);
        let mut r = Rng::new(7);
        let mut n = 0;
        let mut total = 0;
        for seed in 0..40 {
            let mut gen = Gen::new(&g, &d, seed);
            for rule in 0..g.rules.len() {
                let s = gen.sentence(rule);
                n += 1;
                total += s.toks.len();
                let m = layout::any_mode(&mut r);
                let l = layout::layout(&s.toks, m, &mut r);
                layout::self_check(&s.toks, &l).unwrap();
                let t: Vec<u8> = s.toks.iter().map(|t| t.t).collect();
                let o = e.run(rule, &t);
                assert!(o.accepted, "{} {:?}", g.rules[rule].name, l.text);
                let tree = e.tree(&o, &|i| s.toks[i].text.clone());
                assert_eq!(diff_shape(&s.forest, &tree), None, "{} {:?}", g.rules[rule].name, l.text);
            }
            if seed == 39 {
                let un: Vec<_> = g.rules.iter().flat_map(|r| &r.alts).filter(|a| gen.used[a.id] == 0).map(|a| a.kind).collect();
                println!("unused in one generator: {:?}", un);
            }
        }
        println!("{} sentences, {} tokens", n, total);
    }

    /// The long and the deep sentences are sentences, with the trees they come with.
    #[test]
    fn long_and_deep() {
        let g = Grammar::load();
        let d = Dict::load(std::path::Path::new("/repo/src"));
        let e = Earley::new(&g);
        let mut gen = Gen::new(&g, &d, 3);
        let mut check = |rule: usize, s: crate::gen::Sentence, what: String| {
            let c: Vec<u8> = s.toks.iter().map(|t| t.t).collect();
            let o = e.run(rule, &c);
            let text: Vec<&str> = s.toks.iter().map(|t| t.text.as_str()).collect();
            assert!(o.accepted, "{} {}", what, text.join(" "));
            let f = e.tree(&o, &|i| s.toks[i].text.clone());
            assert!(diff_shape(&s.forest, &f).is_none(), "{} {}", what, text.join(" "));
        };
        for (rule, alt, b) in g.repetitions() {
            for n in [0, 1, 2, 7] {
                if n > 0 {
                    check(rule, gen.list(rule, alt, b, n), format!("{} {} {}", g.rules[rule].name, alt, n));
                }
            }
        }
        let all = g.cycles();
        assert!(all.len() > 40);
        for c in &all {
            for n in [1, 2, 3, 20] {
                check(c[0].rule, gen.chain(c, n), format!("{:?} {}", c, n));
            }
        }
        println!("{} repetitions, {} cycles", g.repetitions().len(), all.len());
    }
}
