//! Very long and very deep interfaces, for the monitors of what is reported.

use super::source::{self, *};
use crate::compose::{self, Fill};
use crate::core::*;
use crate::model::iface_diff;
use crate::real::{to_sp, to_token, Item};
use oracle::gen::GTok;
use oracle::iface::Iface;
use oracle::rng::Rng;
use oracle::tree::Pos;
use oracle::tygen::{MTy, PRIMS};
use scilla_parser::parser::parser::ProgramParser;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use scilla_parser::Contract;

fn prim(i: usize) -> MTy {
    match i % 14 {
        11 => MTy::ByStr,
        12 => MTy::ByStr20,
        13 => MTy::ByStrX(i % 500 + 21),
        k => MTy::Prim(PRIMS[k].to_string()),
    }
}

fn list(n: usize, p: &str) -> Vec<(String, MTy)> {
    (0..n).map(|i| (format!("{}{}", p, i), prim(i))).collect()
}

pub const LONG: usize = 7;

/// An interface with one long list.
pub fn long_iface(k: usize, n: usize) -> Iface {
    let mut f = Iface { name: "C".into(), params: list(2, "p"), fields: list(1, "f"), transitions: vec![("T".into(), list(1, "a"))] };
    match k {
        0 => f.params = list(n, "p"),
        1 => f.fields = list(n, "f"),
        2 => f.transitions = (0..n).map(|i| (format!("T{}", i), if i % 5 == 0 { list(1, "a") } else { vec![] })).collect(),
        3 => f.transitions.push(("U".into(), list(n, "a"))),
        4 => f.params.push(("addr".into(), MTy::Addr("contract".into(), list(n, "f")))),
        5 => f.fields.push(("addr".into(), MTy::Map(Box::new(MTy::ByStr20), Box::new(MTy::Addr("contract".into(), list(n, "_f")))))),
        // Everything has the same name.
        _ => {
            f.params = (0..n).map(|i| ("x".to_string(), prim(i))).collect();
            f.fields = f.params.clone();
            f.transitions = vec![("x".into(), f.params.clone()); 2];
        }
    }
    f
}

pub const REPEATS: usize = 8;

/// Every list of up to four entries out of three, two of which have the same name and two the same
/// type, in every place where a list can stand.
pub fn repeats(k: usize) -> Vec<Iface> {
    let e = [("x", "Uint32"), ("x", "String"), ("y", "Uint32")];
    let mut out = vec![];
    for len in 0..5u32 {
        for code in 0..3usize.pow(len) {
            let pick: Vec<usize> = (0..len).map(|i| code / 3usize.pow(i) % 3).collect();
            let l: Vec<(String, MTy)> = pick.iter().map(|i| (e[*i].0.to_string(), MTy::Prim(e[*i].1.into()))).collect();
            let mut f = Iface { name: "C".into(), ..Default::default() };
            match k {
                0 => f.params = l,
                1 => f.fields = l,
                2 => f.transitions.push(("T".into(), l)),
                3 => f.params.push(("p".into(), MTy::Addr("contract".into(), l))),
                4 => f.fields.push(("p".into(), MTy::Pair(Box::new(MTy::Addr("contract".into(), l.clone())), Box::new(MTy::Addr("contract".into(), l))))),
                5 => {
                    // The same names everywhere.
                    f.params = l.clone();
                    f.fields = l.clone();
                    f.transitions = vec![("x".into(), l.clone()), ("C".into(), l.iter().rev().cloned().collect()), ("x".into(), l)];
                }
                // Transitions of the same name, with and without parameters.
                6 => f.transitions = pick.iter().map(|i| [("T", vec![]), ("T", list(1, "a")), ("U", vec![])][*i].clone()).map(|(n, l)| (n.to_string(), l)).collect(),
                _ => {
                    f.params = list(1, "p");
                    f.fields = list(1, "p");
                    f.transitions = pick.iter().map(|i| [("p0", list(1, "p")), ("C", list(2, "p")), ("c", list(1, "C"))][*i].clone()).map(|(n, l)| (n.to_string(), l)).collect();
                }
            }
            out.push(f);
        }
    }
    out
}

pub const WRAPS: usize = 9;

/// A type with the given one this deep inside.
pub fn nest(w: usize, depth: usize, base: MTy) -> MTy {
    let u = || Box::new(MTy::Prim("Uint32".into()));
    let mut t = base;
    for i in 0..depth {
        let b = Box::new(t);
        t = match if w == WRAPS - 1 { i * 7 % (WRAPS - 1) } else { w } {
            0 => MTy::Option(b),
            1 => MTy::List(b),
            2 => MTy::Pair(b, u()),
            3 => MTy::Pair(u(), b),
            4 => MTy::Map(u(), b),
            5 => MTy::Addr("contract".into(), vec![("x".into(), *b)]),
            6 => MTy::Addr("contract".into(), vec![("y".into(), MTy::ByStr), ("x".into(), *b), ("_z".into(), MTy::ByStr20)]),
            _ => MTy::Map(Box::new(MTy::ByStr20), Box::new(MTy::List(b))),
        };
    }
    t
}

/// Types with long names.
pub fn long_names(n: usize) -> Vec<MTy> {
    let a = "a".repeat(n);
    vec![
        MTy::Other(format!("C{}", a)),
        MTy::Other(format!("ByStr{}", a)),
        MTy::Other(format!("L{}.T{}", a, a)),
        MTy::Other(format!("0x{}.T", "aB".repeat(n))),
        MTy::Other(format!("0x{}.Event", "12".repeat(n))),
        MTy::Addr("contract".into(), vec![(format!("x{}", a), MTy::Other(format!("D{}", a))), (format!("_{}", a), MTy::ByStr), (format!("Lib.{}", a), MTy::ByStr)]),
    ]
}

/// What is extracted from a contract whose tokens are given.
pub fn contract_fed(input: &str, toks: &[GTok], pos: &[(Pos, Pos)]) -> Result<Result<Contract, String>, Viol> {
    guard(input, "parsing tokens and extracting the interface", || {
        let v: Vec<Item> = toks.iter().zip(pos).map(|(t, p)| Ok((to_sp(p.0), to_token(t.t, &t.text), to_sp(p.1)))).collect();
        let p = ProgramParser::new().parse(&mut vec![], v.into_iter()).map_err(|e| format!("parser: {:?}", e))?;
        SrEmitter::default().emit(&p)
    })
}

/// A contract with this interface, its tokens fed to the parser.
pub fn fed(ctx: &Ctx, r: &mut Rng, what: &str, f: &Iface) -> Result<Option<Result<Contract, String>>, Viol> {
    let Some(toks) = around(ctx, r, f, Fill::None) else { return Ok(None) };
    let pos = positions(&toks, r);
    let input = format!("{}: {}", what, clip(&source::show(&toks), 3000));
    Ok(Some(contract_fed(&input, &toks, &pos)?))
}

/// A contract with this interface is reported as it is declared.
pub fn declared_fed(ctx: &Ctx, r: &mut Rng, what: &str, f: &Iface, st: &mut Stats) -> R {
    let Some(got) = fed(ctx, r, what, f)? else { panic!("cannot write {}", what) };
    st.eval();
    st.max("largest number of entries observed", f.entries() as u64);
    match got {
        Ok(c) => {
            if let Some(d) = iface_diff(&c, f) {
                fail!(what, "{}", clip(&d, 600));
            }
            st.add("entries compared", f.entries() as u64);
            Ok(())
        }
        Err(e) => fail!(what, "a well-formed contract is refused: {}", clip(&e, 600)),
    }
}

/// A contract around a long list or a deep nest that is no part of its interface.
pub fn irrelevant(_: &Ctx, r: &mut Rng, rule: &str, piece: &[GTok]) -> Option<(Vec<GTok>, Vec<GTok>)> {
    // Before and after the piece, with the piece; and the same contract without it.
    const COMMON: (&str, &str) = ("scilla_version 0", "contract C ( p : Uint32 )");
    const REST: &str = "field f : ByStr20 = x transition T ( a : String ) end transition U ( ) end";
    let places: &[(&str, &str)] = match rule {
        "FullExpression" => &[
            ("scilla_version 0 contract C ( p : Uint32 ) with", "=> field f : ByStr20 = x transition T ( a : String ) end transition U ( ) end"),
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 =", "transition T ( a : String ) end transition U ( ) end"),
            ("scilla_version 0 library L let x =", "contract C ( p : Uint32 ) field f : ByStr20 = x transition T ( a : String ) end transition U ( ) end"),
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = x transition T ( a : String ) x =", "end transition U ( ) end"),
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = x procedure P ( ) x =", "end transition T ( a : String ) end transition U ( ) end"),
        ],
        "Statement" | "StatementBlock" => &[
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = x transition T ( a : String )", "end transition U ( ) end"),
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = x procedure P ( b : Uint32 )", "end transition T ( a : String ) end transition U ( ) end"),
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = x transition T ( a : String ) match x with | _ =>", "end end transition U ( ) end"),
        ],
        "ComponentBody" => &[
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = x transition T ( a : String )", "transition U ( ) end"),
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = x procedure P ( )", "transition T ( a : String ) end transition U ( ) end"),
        ],
        "ProcedureDefinition" => &[
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = x", "transition T ( a : String ) end transition U ( ) end"),
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = x transition T ( a : String ) end", "transition U ( ) end"),
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = x transition T ( a : String ) end transition U ( ) end", ""),
        ],
        "ComponentParameters" => &[
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = x procedure P", "end transition T ( a : String ) end transition U ( ) end"),
        ],
        "LibraryDefinition" | "ImportDeclarations" => &[(COMMON.0, "contract C ( p : Uint32 ) field f : ByStr20 = x transition T ( a : String ) end transition U ( ) end")],
        "LibrarySingleDefinition" => &[("scilla_version 0 library L", "contract C ( p : Uint32 ) field f : ByStr20 = x transition T ( a : String ) end transition U ( ) end")],
        "ScillaType" | "RemainingTypes" | "FunctionSignature" => &[
            ("scilla_version 0 library L let x :", "= y contract C ( p : Uint32 ) field f : ByStr20 = x transition T ( a : String ) end transition U ( ) end"),
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = fun ( x :", ") => x transition T ( a : String ) end transition U ( ) end"),
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = x procedure P ( a :", ") end transition T ( a : String ) end transition U ( ) end"),
        ],
        "TypeArgument" => &[
            ("scilla_version 0 library L type A = | B of", "contract C ( p : Uint32 ) field f : ByStr20 = x transition T ( a : String ) end transition U ( ) end"),
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = @ x", "transition T ( a : String ) end transition U ( ) end"),
        ],
        "Pattern" => &[
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = match x with |", "=> y end transition T ( a : String ) end transition U ( ) end"),
            ("scilla_version 0 contract C ( p : Uint32 ) field f : ByStr20 = x transition T ( a : String ) match x with |", "=> end end transition U ( ) end"),
        ],
        "WithConstraint" => &[("scilla_version 0 contract C ( p : Uint32 )", "field f : ByStr20 = x transition T ( a : String ) end transition U ( ) end")],
        _ => return None,
    };
    let (a, b) = r.pick(places);
    let mut with = vec![];
    compose::raw(&mut with, a);
    with.extend(piece.iter().cloned());
    compose::raw(&mut with, b);
    let mut without = vec![];
    compose::raw(&mut without, &format!("{} {} {}", COMMON.0, COMMON.1, REST));
    Some((with, without))
}
