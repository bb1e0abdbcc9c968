//! Types of the interface model and the ways to write them.

use crate::dict::{Dict, TYPE_NAMES};
use crate::gen::GTok;
use crate::lexref::{lex, term, BYSTRN, CID, HEX, ID, SPID, T, TID};
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum MTy {
    Prim(String),
    ByStr,
    ByStrX(usize),
    ByStr20,
    Addr(String, Vec<(String, MTy)>),
    Map(Box<MTy>, Box<MTy>),
    Option(Box<MTy>),
    List(Box<MTy>),
    Pair(Box<MTy>, Box<MTy>),
    Other(String),
    /// The rules do not say what is reported.
    Any,
    /// Not expressible in the model.
    Fun(Box<MTy>, Box<MTy>),
    Poly(String, Box<MTy>),
    Var(String),
    Arity(String, Vec<MTy>),
    /// A name that takes no arguments, applied to some.
    Extra(String, Vec<MTy>),
}

pub const PRIMS: &[&str] =
    &["Int32", "Int64", "Int128", "Int256", "Uint32", "Uint64", "Uint128", "Uint256", "String", "BNum", "Bool"];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ctx {
    Scilla,
    Arg,
    Key,
    Value,
    ValueArg,
}

/// What a bare type name stands for; None if it is not a type on its own.
pub fn name_type(name: &str) -> Option<MTy> {
    if PRIMS.contains(&name) {
        return Some(MTy::Prim(name.to_string()));
    }
    match name {
        "ByStr" => return Some(MTy::ByStr),
        "ByStr20" => return Some(MTy::ByStr20),
        "Option" | "List" | "Pair" => return None,
        _ => {}
    }
    if let Some(d) = name.strip_prefix("ByStr") {
        if !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()) {
            if d.len() > 1 && d.starts_with('0') {
                return Some(MTy::Any);
            }
            return Some(match d.parse::<usize>() {
                Ok(n) => MTy::ByStrX(n),
                Err(_) => MTy::Any,
            });
        }
    }
    Some(MTy::Other(name.to_string()))
}

pub fn arity(name: &str) -> Option<usize> {
    match name {
        "Option" | "List" => Some(1),
        "Pair" => Some(2),
        _ => None,
    }
}

impl MTy {
    pub fn size(&self) -> usize {
        1 + match self {
            MTy::Addr(_, f) => f.iter().map(|(_, t)| t.size()).sum(),
            MTy::Map(a, b) | MTy::Pair(a, b) | MTy::Fun(a, b) => a.size() + b.size(),
            MTy::Option(a) | MTy::List(a) | MTy::Poly(_, a) => a.size(),
            MTy::Arity(_, v) | MTy::Extra(_, v) => v.iter().map(|t| t.size()).sum(),
            _ => 0,
        }
    }
    pub fn depth(&self) -> usize {
        1 + match self {
            MTy::Addr(_, f) => f.iter().map(|(_, t)| t.depth()).max().unwrap_or(0),
            MTy::Map(a, b) | MTy::Pair(a, b) | MTy::Fun(a, b) => a.depth().max(b.depth()),
            MTy::Option(a) | MTy::List(a) | MTy::Poly(_, a) => a.depth(),
            MTy::Arity(_, v) | MTy::Extra(_, v) => v.iter().map(|t| t.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn has_any(&self) -> bool {
        match self {
            MTy::Any => true,
            MTy::Addr(_, f) => f.iter().any(|(_, t)| t.has_any()),
            MTy::Map(a, b) | MTy::Pair(a, b) | MTy::Fun(a, b) => a.has_any() || b.has_any(),
            MTy::Option(a) | MTy::List(a) | MTy::Poly(_, a) => a.has_any(),
            MTy::Arity(_, v) | MTy::Extra(_, v) => v.iter().any(|t| t.has_any()),
            _ => false,
        }
    }
    /// Short name of the outermost constructor.
    pub fn tag(&self) -> &'static str {
        match self {
            MTy::Prim(_) => "prim",
            MTy::ByStr => "bystr",
            MTy::ByStrX(_) => "bystrx",
            MTy::ByStr20 => "bystr20",
            MTy::Addr(..) => "address",
            MTy::Map(..) => "map",
            MTy::Option(_) => "option",
            MTy::List(_) => "list",
            MTy::Pair(..) => "pair",
            MTy::Other(_) => "other",
            MTy::Any => "any",
            MTy::Fun(..) => "function",
            MTy::Poly(..) => "forall",
            MTy::Var(_) => "typevar",
            MTy::Arity(..) => "arity",
            MTy::Extra(..) => "extra",
        }
    }
}

fn fixed(out: &mut Vec<GTok>, s: &str) {
    out.push(GTok::fixed(term(s)));
}

fn name_toks(out: &mut Vec<GTok>, name: &str) {
    for t in lex(name).toks {
        out.push(GTok { t: t.t, text: t.text(name).to_string() });
    }
}

/// Chance (in 16ths) of a redundant pair of parentheses.
pub struct Writer<'a> {
    pub r: &'a mut Rng,
    pub parens: usize,
}

impl<'a> Writer<'a> {
    /// Appends the type as written in the given context; None if that context has no way to write it.
    pub fn write(&mut self, t: &MTy, c: Ctx, out: &mut Vec<GTok>) -> Option<()> {
        let wrap = self.parens > 0 && self.r.chance(self.parens, 16);
        let atom = matches!(t, MTy::Prim(_) | MTy::ByStr | MTy::ByStrX(_) | MTy::ByStr20 | MTy::Other(_)) || matches!(t, MTy::Arity(_, v) if v.is_empty());
        let addr = matches!(t, MTy::Addr(..));
        let bare = match c {
            Ctx::Scilla => true,
            Ctx::Arg => atom || addr || matches!(t, MTy::Map(..) | MTy::Var(_)),
            Ctx::Key => atom || addr,
            Ctx::Value => atom || addr || matches!(t, MTy::Map(..)),
            Ctx::ValueArg => atom || matches!(t, MTy::Map(..)),
        };
        if !bare || wrap {
            match c {
                Ctx::Scilla | Ctx::Arg => {
                    fixed(out, "(");
                    self.write(t, Ctx::Scilla, out)?;
                    fixed(out, ")");
                }
                Ctx::Key => {
                    if !bare {
                        return None;
                    }
                    fixed(out, "(");
                    self.bare(t, c, out)?;
                    fixed(out, ")");
                }
                Ctx::Value | Ctx::ValueArg => {
                    fixed(out, "(");
                    self.allowing(t, out)?;
                    fixed(out, ")");
                }
            }
            return Some(());
        }
        self.bare(t, c, out)
    }

    /// A map value between parentheses.
    fn allowing(&mut self, t: &MTy, out: &mut Vec<GTok>) -> Option<()> {
        match t {
            MTy::Option(_) | MTy::List(_) | MTy::Pair(..) => self.bare(t, Ctx::ValueArg, out),
            MTy::Arity(_, v) | MTy::Extra(_, v) if !v.is_empty() => self.bare(t, Ctx::ValueArg, out),
            MTy::Fun(..) | MTy::Poly(..) | MTy::Var(_) => None,
            _ => self.write(t, Ctx::Value, out),
        }
    }

    fn apply(&mut self, name: &str, args: &[&MTy], c: Ctx, out: &mut Vec<GTok>) -> Option<()> {
        name_toks(out, name);
        let sub = if c == Ctx::ValueArg || c == Ctx::Value { Ctx::ValueArg } else { Ctx::Arg };
        for a in args {
            self.write(a, sub, out)?;
        }
        Some(())
    }

    fn bare(&mut self, t: &MTy, c: Ctx, out: &mut Vec<GTok>) -> Option<()> {
        match t {
            MTy::Prim(n) | MTy::Other(n) => name_toks(out, n),
            MTy::ByStr => name_toks(out, "ByStr"),
            MTy::ByStr20 => name_toks(out, "ByStr20"),
            MTy::ByStrX(n) => name_toks(out, &format!("ByStr{}", n)),
            MTy::Option(a) => self.apply("Option", &[a], c, out)?,
            MTy::List(a) => self.apply("List", &[a], c, out)?,
            MTy::Pair(a, b) => self.apply("Pair", &[a, b], c, out)?,
            MTy::Arity(n, v) | MTy::Extra(n, v) => {
                let v: Vec<&MTy> = v.iter().collect();
                self.apply(n, &v, c, out)?
            }
            MTy::Map(k, v) => {
                fixed(out, "Map");
                self.write(k, Ctx::Key, out)?;
                self.write(v, Ctx::Value, out)?;
            }
            MTy::Addr(kind, fields) => {
                name_toks(out, "ByStr20");
                fixed(out, "with");
                match kind.as_str() {
                    "" => {}
                    "contract" => {
                        fixed(out, "contract");
                        for (i, (n, t)) in fields.iter().enumerate() {
                            if i > 0 {
                                fixed(out, ",");
                            }
                            fixed(out, "field");
                            name_toks(out, n);
                            fixed(out, ":");
                            self.write(t, Ctx::Scilla, out)?;
                        }
                    }
                    "library" => fixed(out, "library"),
                    k => out.push(GTok::new(SPID, k)),
                }
                fixed(out, "end");
            }
            MTy::Fun(a, b) => {
                // The domain of an arrow is not itself an arrow or a quantified type.
                if matches!(**a, MTy::Fun(..) | MTy::Poly(..)) {
                    fixed(out, "(");
                    self.write(a, Ctx::Scilla, out)?;
                    fixed(out, ")");
                } else {
                    self.write(a, Ctx::Scilla, out)?;
                }
                fixed(out, "->");
                self.write(b, Ctx::Scilla, out)?;
            }
            MTy::Poly(v, a) => {
                fixed(out, "forall");
                out.push(GTok::new(TID, v));
                fixed(out, ".");
                self.write(a, Ctx::Scilla, out)?;
            }
            MTy::Var(v) => out.push(GTok::new(TID, v)),
            MTy::Any => return None,
        }
        Some(())
    }
}

pub struct TyGen<'a> {
    pub d: &'a Dict,
    pub r: &'a mut Rng,
}

impl<'a> TyGen<'a> {
    fn simple_name(&mut self) -> String {
        match self.r.below(8) {
            0 => "Event".into(),
            1 => self.d.text(BYSTRN, self.r),
            _ => self.d.text(CID, self.r),
        }
    }

    pub fn atom(&mut self) -> MTy {
        loop {
            let name = match self.r.below(12) {
                0..=3 => self.r.pick(PRIMS).to_string(),
                4 => "ByStr".to_string(),
                5 => "ByStr20".to_string(),
                6 => self.d.text(BYSTRN, self.r),
                7 => {
                    let a = self.simple_name();
                    let b = self.simple_name();
                    format!("{}.{}", a, b)
                }
                8 => {
                    let a = self.d.text(HEX, self.r);
                    let b = self.simple_name();
                    format!("{}.{}", a, b)
                }
                9 => self.r.pick(TYPE_NAMES).to_string(),
                _ => self.simple_name(),
            };
            match name_type(&name) {
                Some(MTy::Any) | None => continue,
                Some(t) => return t,
            }
        }
    }

    pub fn field_name(&mut self) -> String {
        match self.r.below(6) {
            0 => self.d.text(SPID, self.r),
            1 => format!("{}.{}", self.simple_name(), self.d.text(ID, self.r)),
            _ => self.d.text(ID, self.r),
        }
    }

    pub fn address(&mut self, depth: usize) -> MTy {
        match self.r.below(6) {
            0 => MTy::Addr("".into(), vec![]),
            1 => MTy::Addr("library".into(), vec![]),
            2 => MTy::Addr(self.d.text(SPID, self.r), vec![]),
            _ => {
                let n = match self.r.below(30) {
                    0 => self.r.range(10, 300),
                    1..=6 => 0,
                    _ => self.r.range(1, 5),
                };
                let d = if n > 8 { 1 } else { depth.saturating_sub(1) };
                let mut f = vec![];
                for _ in 0..n {
                    let name = if !f.is_empty() && self.r.chance(1, 10) {
                        let (s, _): &(String, MTy) = self.r.pick(&f);
                        s.clone()
                    } else {
                        self.field_name()
                    };
                    f.push((name, self.ty(d)));
                }
                MTy::Addr("contract".into(), f)
            }
        }
    }

    pub fn key(&mut self, depth: usize) -> MTy {
        if self.r.chance(1, 5) {
            self.address(depth)
        } else {
            self.atom()
        }
    }

    /// A type the model can express.
    pub fn ty(&mut self, depth: usize) -> MTy {
        if depth == 0 || self.r.chance(1, 5) {
            return self.atom();
        }
        let d = depth - 1;
        match self.r.below(10) {
            0 | 1 => MTy::Option(Box::new(self.ty(d))),
            2 | 3 => MTy::List(Box::new(self.ty(d))),
            4 | 5 => {
                // Deep on one side only, so that depth does not mean exponential size.
                let (a, b) = if depth > 4 { if self.r.chance(1, 2) { (d, 1) } else { (1, d) } } else { (d, d) };
                MTy::Pair(Box::new(self.ty(a)), Box::new(self.ty(b)))
            }
            6 | 7 => MTy::Map(Box::new(self.key(d.min(2))), Box::new(self.ty(d))),
            8 => self.address(d.min(4)),
            _ => self.atom(),
        }
    }

    pub fn any_depth(&mut self) -> usize {
        match self.r.below(40) {
            0 => self.r.range(20, 120),
            1..=3 => self.r.range(6, 20),
            _ => self.r.range(0, 5),
        }
    }

    /// A type the model cannot express, because of one thing somewhere in it.
    pub fn bad(&mut self) -> MTy {
        let tv = self.d.text(TID, self.r);
        let mut t = match self.r.below(8) {
            0 | 1 => MTy::Fun(Box::new(self.ty(1)), Box::new(self.ty(1))),
            2 => MTy::Poly(tv.clone(), Box::new(if self.r.chance(1, 2) { self.ty(1) } else { MTy::Var(tv) })),
            3 | 4 => MTy::Var(tv),
            _ => {
                let n = *self.r.pick(&["Option", "List", "Pair"]);
                let a = arity(n).unwrap();
                let mut k = self.r.range(0, 4);
                if k == a {
                    k += 1;
                }
                let v = (0..k).map(|_| self.ty(1)).collect();
                MTy::Arity(n.to_string(), v)
            }
        };
        let wraps = match self.r.below(20) {
            0 => self.r.range(20, 80),
            1..=6 => 0,
            _ => self.r.range(1, 6),
        };
        for _ in 0..wraps {
            t = match self.r.below(11) {
                0 | 1 => MTy::Option(Box::new(t)),
                2 => MTy::List(Box::new(t)),
                3 => MTy::Pair(Box::new(t), Box::new(self.ty(1))),
                4 => MTy::Pair(Box::new(self.ty(1)), Box::new(t)),
                5 | 6 => MTy::Map(Box::new(self.key(1)), Box::new(t)),
                7 => MTy::Map(Box::new(t), Box::new(self.ty(1))),
                8 => {
                    let name = loop {
                        let n = self.d.text(CID, self.r);
                        if arity(&n).is_none() {
                            break n;
                        }
                    };
                    MTy::Extra(name, vec![t])
                }
                _ => {
                    let n = self.r.range(0, 2);
                    let mut f = vec![];
                    for _ in 0..n {
                        f.push((self.field_name(), self.ty(1)));
                    }
                    let at = self.r.below(f.len() + 1);
                    f.insert(at, (self.field_name(), t));
                    MTy::Addr("contract".into(), f)
                }
            };
        }
        t
    }
}

/// Every type up to the given depth over a few atoms.
pub fn small(depth: usize, atoms: &[MTy]) -> Vec<MTy> {
    let mut level: Vec<MTy> = atoms.to_vec();
    level.push(MTy::Addr("".into(), vec![]));
    level.push(MTy::Addr("contract".into(), vec![]));
    level.push(MTy::Addr("library".into(), vec![]));
    level.push(MTy::Addr("_k".into(), vec![]));
    let keys: Vec<MTy> = level.clone();
    for _ in 1..depth {
        let prev = level.clone();
        let step = |t: &MTy| Box::new(t.clone());
        for a in &prev {
            level.push(MTy::Option(step(a)));
            level.push(MTy::List(step(a)));
            level.push(MTy::Addr("contract".into(), vec![("f".into(), a.clone())]));
            for k in keys.iter() {
                level.push(MTy::Map(step(k), step(a)));
            }
        }
        let few: Vec<&MTy> = prev.iter().step_by((prev.len() / 14).max(1)).collect();
        for a in &few {
            for b in &few {
                level.push(MTy::Pair(step(a), step(b)));
                level.push(MTy::Addr("contract".into(), vec![("f".into(), (*a).clone()), ("_g".into(), (*b).clone())]));
            }
        }
    }
    level
}

/// The class of a terminal that begins a type (for statistics).
pub fn first_class(toks: &[GTok]) -> T {
    toks.first().map_or(0, |t| t.t)
}
