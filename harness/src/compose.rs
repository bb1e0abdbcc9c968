//! Whole contracts built around a chosen interface.

use crate::core::Ctx;
use oracle::gen::{GTok, Gen, Style};
use oracle::iface::Iface;
use oracle::lexref::{lex, term, BYSTRN, CID, ID, NUMBER};
use oracle::rng::Rng;
use oracle::tygen::{Ctx as Place, MTy, TyGen, Writer};

pub fn fixed(out: &mut Vec<GTok>, s: &str) {
    out.push(GTok::fixed(term(s)));
}

pub fn raw(out: &mut Vec<GTok>, s: &str) {
    for t in lex(s).toks {
        out.push(GTok { t: t.t, text: t.text(s).to_string() });
    }
}

pub fn type_toks(r: &mut Rng, t: &MTy, out: &mut Vec<GTok>) -> Option<()> {
    let parens = *r.pick(&[0usize, 0, 0, 1, 2, 6]);
    Writer { r, parens }.write(t, Place::Scilla, out)
}

/// How much else there is in the contract.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fill {
    None,
    Small,
    Rich,
}

fn style(r: &mut Rng, fill: Fill) -> Style {
    match fill {
        Fill::None => Style { depth: 0, max_tokens: 0, more: 1, opt: 1, long: 0 },
        Fill::Small => Style { depth: r.range(3, 9), max_tokens: r.range(1, 14), more: r.range(1, 8), opt: r.range(1, 12), long: 0 },
        Fill::Rich => {
            let mut s = Style::random(r);
            s.max_tokens = s.max_tokens.min(150);
            if s.long > 70 {
                s.long = 0;
            }
            s
        }
    }
}

pub struct Builder<'a> {
    pub ctx: &'a Ctx,
    pub gen: Gen<'a>,
    pub fill: Fill,
    /// The names of the interface occur everywhere, in short lists of everything.
    pub shadow: bool,
}

impl<'a> Builder<'a> {
    pub fn new(ctx: &'a Ctx, r: &mut Rng, fill: Fill) -> Self {
        let mut gen = Gen::new(&ctx.g, &ctx.dict, r.next());
        gen.used = vec![3; ctx.g.nalts];
        if r.chance(1, 2) {
            gen.focus = Some(r.below(ctx.g.nalts));
        }
        Builder { ctx, gen, fill, shadow: false }
    }

    pub fn piece(&mut self, r: &mut Rng, rule: &str, out: &mut Vec<GTok>) {
        let mut st = style(r, self.fill);
        if self.shadow {
            st.max_tokens = st.max_tokens.max(10);
            st.more = r.range(2, 9);
            st.opt = r.range(3, 13);
            if r.chance(1, 2) {
                st.long = r.range(2, 6);
            }
        }
        let s = self.gen.sentence_with(self.ctx.g.rule(rule), st);
        out.extend(s.toks);
    }

    fn list(&mut self, r: &mut Rng, l: &[(String, MTy)], out: &mut Vec<GTok>) -> Option<()> {
        fixed(out, "(");
        for (i, (n, t)) in l.iter().enumerate() {
            if i > 0 {
                fixed(out, ",");
            }
            out.push(GTok::new(ID, n));
            fixed(out, ":");
            type_toks(r, t, out)?;
        }
        fixed(out, ")");
        Some(())
    }

    /// A complete contract that declares exactly this interface; None if a type cannot be written.
    pub fn program(&mut self, r: &mut Rng, f: &Iface) -> Option<Vec<GTok>> {
        let mut out = vec![];
        let more = self.fill != Fill::None;
        self.gen.names.clear();
        if more && (self.shadow || r.chance(1, 3)) {
            // The names of the interface also occur elsewhere.
            let mut names = vec![f.name.as_str()];
            names.extend(f.params.iter().chain(&f.fields).map(|e| e.0.as_str()));
            for (t, p) in &f.transitions {
                names.push(t);
                names.extend(p.iter().map(|e| e.0.as_str()));
            }
            for n in names.into_iter().take(300) {
                for t in [ID, CID] {
                    if oracle::dict::is_token(n, t) {
                        let l = self.gen.names.entry(t).or_default();
                        if l.len() < 12 {
                            l.push(n.to_string());
                        }
                    }
                }
            }
        }
        fixed(&mut out, "scilla_version");
        out.push(GTok::new(NUMBER, &if r.chance(3, 4) { "0".to_string() } else { self.ctx.dict.text(NUMBER, r) }));
        if more && r.chance(2, 5) {
            self.piece(r, "ImportDeclarations", &mut out);
        }
        if more && r.chance(if self.shadow { 9 } else { 5 }, 10) {
            self.piece(r, "LibraryDefinition", &mut out);
        }
        fixed(&mut out, "contract");
        raw(&mut out, &f.name);
        self.list(r, &f.params, &mut out)?;
        if more && r.chance(1, 3) {
            self.piece(r, "WithConstraint", &mut out);
        }
        for (n, t) in &f.fields {
            fixed(&mut out, "field");
            out.push(GTok::new(ID, n));
            fixed(&mut out, ":");
            type_toks(r, t, &mut out)?;
            fixed(&mut out, "=");
            if more {
                self.piece(r, "FullExpression", &mut out);
            } else {
                raw(&mut out, "x");
            }
        }
        let procs = if more { r.geo(1, 3, 4) } else { 0 };
        // Position of each procedure among the transitions.
        let mut at: Vec<usize> = (0..procs).map(|_| r.below(f.transitions.len() + 1)).collect();
        at.sort();
        let mut p = 0;
        for i in 0..=f.transitions.len() {
            while p < at.len() && at[p] == i {
                self.piece(r, "ProcedureDefinition", &mut out);
                p += 1;
            }
            if let Some((n, params)) = f.transitions.get(i) {
                fixed(&mut out, "transition");
                raw(&mut out, n);
                self.list(r, params, &mut out)?;
                if more {
                    self.piece(r, "ComponentBody", &mut out);
                } else {
                    fixed(&mut out, "end");
                }
            }
        }
        Some(out)
    }
}

fn count(r: &mut Rng) -> usize {
    match r.below(40) {
        0 => r.range(8, 40),
        1 => *r.pick(&[63usize, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]),
        2..=10 => 0,
        _ => r.range(1, 5),
    }
}

fn entries(ctx: &Ctx, r: &mut Rng, n: usize) -> Vec<(String, MTy)> {
    let mut out: Vec<(String, MTy)> = vec![];
    for _ in 0..n {
        if !out.is_empty() && r.chance(1, 20) {
            // The same entry again.
            let i = if r.chance(1, 2) { out.len() - 1 } else { r.below(out.len()) };
            out.push(out[i].clone());
            continue;
        }
        let mut tg = TyGen { d: &ctx.dict, r };
        let depth = if n > 8 { 1 } else { tg.any_depth() };
        let t = tg.ty(depth);
        // Declared names may repeat.
        let name = if !out.is_empty() && r.chance(1, 12) { out[r.below(out.len())].0.clone() } else { ctx.dict.text(ID, r) };
        out.push((name, t));
    }
    out
}

pub fn contract_name(ctx: &Ctx, r: &mut Rng) -> String {
    match r.below(12) {
        0 => "Event".into(),
        1 => ctx.dict.text(BYSTRN, r),
        _ => ctx.dict.text(CID, r),
    }
}

pub fn component_name(ctx: &Ctx, r: &mut Rng) -> String {
    if r.chance(1, 2) {
        contract_name(ctx, r)
    } else {
        ctx.dict.text(ID, r)
    }
}

pub fn iface(ctx: &Ctx, r: &mut Rng) -> Iface {
    let big = r.below(40);
    let mut f = Iface { name: contract_name(ctx, r), ..Default::default() };
    let n = if big == 0 { count(r) } else { r.below(4) };
    f.params = entries(ctx, r, n);
    let n = if big == 1 { count(r) } else { r.below(5) };
    f.fields = entries(ctx, r, n);
    let n = if big == 2 { count(r) } else { r.below(5) };
    for _ in 0..n {
        if !f.transitions.is_empty() && r.chance(1, 20) {
            f.transitions.push(f.transitions[f.transitions.len() - 1].clone());
            continue;
        }
        let k = if n > 8 { r.below(2) } else if big == 3 { count(r) } else { r.below(4) };
        let p = entries(ctx, r, k);
        let name = if !f.transitions.is_empty() && r.chance(1, 12) { f.transitions[0].0.clone() } else { component_name(ctx, r) };
        f.transitions.push((name, p));
    }
    if r.chance(1, 8) {
        relate(ctx, r, &mut f);
    }
    f
}

/// The i-th of n names, by one of several rules that relate them.
fn related(rule: usize, base: &str, i: usize, n: usize) -> String {
    let base = base.trim_end_matches('_');
    match rule {
        0 => format!("{}{:03}", base, n - i),
        1 => format!("{}{:03}", base, i),
        2 => format!("{}{}", base, n - i),
        3 => ((b'a' + ((n - i) % 26) as u8) as char).to_string(),
        4 => ((b'a' + (i * 7 % 26) as u8) as char).to_string(),
        5 => format!("{}{}", base, "_".repeat(i)),
        6 => format!("{}{}", base, "_".repeat(n - i)),
        7 => format!("{}_{}", base, if i % 2 == 0 { "x" } else { "X" }),
        8 => format!("{}{}", (b'a' + ((n - i) % 26) as u8) as char, base),
        9 => format!("{}{}_", base, i / 2),
        _ => base.to_string(),
    }
}

/// Gives the entries names that are related to each other: in ascending or descending order, long,
/// short, with a common beginning or end, equal but for one letter.
pub fn relate(ctx: &Ctx, r: &mut Rng, f: &mut Iface) {
    let rename = |r: &mut Rng, l: &mut Vec<(String, MTy)>| {
        let rule = r.below(11);
        let long = r.chance(1, 3);
        let base = if long { ctx.dict.long_text(ID, r) } else { ctx.dict.text(ID, r) };
        let base = if base.len() > 300 { "long".repeat(20) } else { base };
        let n = l.len();
        for (i, e) in l.iter_mut().enumerate() {
            let name = related(rule, &base, i, n);
            if oracle::dict::is_token(&name, ID) {
                e.0 = name;
            }
        }
    };
    rename(r, &mut f.params);
    rename(r, &mut f.fields);
    for (_, p) in &mut f.transitions {
        rename(r, p);
    }
    let mut names: Vec<(String, MTy)> = f.transitions.iter().map(|t| (t.0.clone(), MTy::ByStr)).collect();
    rename(r, &mut names);
    for (t, n) in f.transitions.iter_mut().zip(names) {
        t.0 = n.0;
    }
}

/// An interface of related names and simple types, with lists of all lengths.
pub fn related_iface(ctx: &Ctx, r: &mut Rng) -> Iface {
    let mut f = Iface { name: contract_name(ctx, r), ..Default::default() };
    let len = |r: &mut Rng| match r.below(4) {
        0 => 0,
        1 => r.range(1, 4),
        2 => r.range(5, 16),
        _ => r.range(1, 40),
    };
    let list = |r: &mut Rng, n: usize| -> Vec<(String, MTy)> { (0..n).map(|_| ("x".to_string(), TyGen { d: &ctx.dict, r }.ty(1))).collect() };
    let n = len(r);
    f.params = list(r, n);
    let n = len(r);
    f.fields = list(r, n);
    for _ in 0..len(r) {
        let n = r.below(3) * r.below(3);
        let p = list(r, n);
        f.transitions.push(("T".into(), p));
    }
    if r.chance(1, 8) {
        if let Some(t) = f.transitions.last_mut() {
            let n = len(r);
            t.1 = list(r, n);
        }
    }
    relate(ctx, r, &mut f);
    f
}

/// A small interface.
pub fn small_iface(ctx: &Ctx, r: &mut Rng) -> Iface {
    let mut f = Iface { name: contract_name(ctx, r), ..Default::default() };
    let e = |r: &mut Rng, n: usize| -> Vec<(String, MTy)> {
        (0..n)
            .map(|_| {
                let name = ctx.dict.text(ID, r);
                (name, TyGen { d: &ctx.dict, r }.ty(1))
            })
            .collect()
    };
    let n = r.below(3);
    f.params = e(r, n);
    let n = r.below(3);
    f.fields = e(r, n);
    for _ in 0..r.below(3) {
        let n = r.below(3);
        let p = e(r, n);
        f.transitions.push((component_name(ctx, r), p));
    }
    f
}
