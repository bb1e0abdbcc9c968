//! The monitors, one group per file.

pub mod bulk;
pub mod cost;
pub mod effects;
pub mod files;
pub mod gram;
pub mod iface;
pub mod lex;
pub mod long;
pub mod pure;
pub mod races;
pub mod robust;
pub mod source;
pub mod stream;
pub mod values;
pub mod walk;

use crate::core::{Ctx, Prop};

fn none(_: &Ctx) -> u64 {
    0
}

const EXP: &str = "exploration";

macro_rules! props {
    ($($id:ident $level:expr, $blocks:expr, $case:expr, $quick:expr, $thorough:expr, $once:expr, $rule:expr;)*) => {
        static PROPS: &[Prop] = &[$(Prop { id: stringify!($id), level: $level, rule: $rule, blocks: $blocks, case: $case, quick: $quick, thorough: $thorough, once: $once }),*];
    };
}

props! {
    C01 EXP, robust::blocks, robust::c01, (4_000_000, 40), (50_000_000, 300), Some(races::memory), "distinct texts given to the contract parser and to sub-parsers";
    C02 EXP, iface::c02_blocks, iface::c02, (4_000_000, 22), (50_000_000, 300), None, "distinct contracts whose whole reported interface was compared with the declared one";
    C03 EXP, iface::c03_blocks, iface::c03, (4_000_000, 22), (50_000_000, 300), None, "distinct types, as written, whose report was compared";
    C04 EXP, gram::c04_blocks, gram::c04, (4_000_000, 22), (50_000_000, 300), None, "distinct pairs of layouts of the same token sequence";
    C05 EXP, iface::c05_blocks, iface::c05, (4_000_000, 25), (50_000_000, 300), None, "distinct pairs of contracts that differ only in what is no part of the interface";
    C06 EXP, lex::blocks, lex::c06, (4_000_000, 22), (50_000_000, 300), None, "distinct texts with at least one token";
    C07 EXP, lex::blocks, lex::c07, (4_000_000, 22), (50_000_000, 300), None, "distinct texts with line feeds, tabs, comments or non-ASCII characters, and at least one token";
    C08 EXP, gram::c08_blocks, gram::c08, (4_000_000, 25), (50_000_000, 300), None, "distinct token sequences (per rule) whose acceptance was compared with the grammar";
    C09 EXP, gram::tree_blocks, gram::c09, (4_000_000, 22), (50_000_000, 300), None, "distinct sentences of more than one token (per rule) whose tree was compared";
    C10 EXP, gram::tree_blocks, gram::c10, (4_000_000, 22), (50_000_000, 300), None, "distinct sentences of more than one token (per rule) whose spans were compared";
    C11 EXP, gram::c11_blocks, gram::c11, (4_000_000, 22), (50_000_000, 300), None, "distinct rejected sequences (per rule) whose error was compared";
    C12 EXP, walk::blocks, walk::c12, (4_000_000, 22), (50_000_000, 300), None, "distinct trees walked";
    C13 EXP, walk::blocks, walk::c13, (4_000_000, 22), (50_000_000, 300), None, "distinct trees walked";
    C14 "fault_enumeration", walk::blocks, walk::c14, (4_000_000, 22), (50_000_000, 300), None, "distinct trees walked with failures injected";
    C15 EXP, iface::c15_blocks, iface::c15, (4_000_000, 22), (50_000_000, 300), None, "distinct reported types printed and parsed back in every position";
    C16 EXP, walk::c16_blocks, walk::c16, (4_000_000, 22), (50_000_000, 300), None, "distinct texts whose tokens or identifiers were converted back";
    C17 EXP, pure::blocks, pure::c17, (4_000_000, 40), (50_000_000, 300), Some(races::threads), "distinct texts parsed repeatedly, interleaved, from several threads or in a fresh process";
    C18 EXP, files::blocks, files::c18, (4_000_000, 22), (50_000_000, 300), None, "distinct (contents, path spelling) pairs and failing paths";
    C19 EXP, cost::blocks, cost::c19, (0, 240), (0, 700), None, "distinct (construct, way of parsing) pairs measured at doubling sizes";
    C20 EXP, iface::c20_blocks, iface::c20, (4_000_000, 22), (50_000_000, 300), None, "distinct contracts with an inexpressible type";
    C21 EXP, effects::blocks, effects::c21, (4_000_000, 25), (50_000_000, 300), None, "distinct texts parsed by a thread whose system calls and memory were watched";
    C22 EXP, values::c22_blocks, values::c22, (4_000_000, 22), (50_000_000, 300), None, "distinct rejected texts and failing paths whose error was read";
    C23 EXP, none, values::c23, (4_000_000, 22), (50_000_000, 300), None, "distinct contracts, types, trees and token lists compared with others";
    C24 EXP, values::c24_blocks, values::c24, (4_000_000, 22), (50_000_000, 300), None, "distinct texts and types whose tree or representation was turned into an interface";
    C25 EXP, stream::blocks, stream::c25, (4_000_000, 22), (50_000_000, 300), None, "distinct texts of at least two tokens, or pairs of texts with tokens, that were tokenised in several ways";
}

pub fn all() -> &'static [Prop] {
    PROPS
}

pub fn oneshot(arg: &str) -> i32 {
    if let Some(n) = arg.strip_prefix("deep:") {
        return robust::parse_deep(n.parse().unwrap());
    }
    if let Some(f) = arg.strip_prefix("many:") {
        return pure::oneshot_many(f);
    }
    if let Some(n) = arg.strip_prefix("counted:") {
        return pure::oneshot_counted(n.parse().unwrap_or(0));
    }
    if let Some(f) = arg.strip_prefix("files:") {
        return files::oneshot_files(f);
    }
    if let Some(f) = arg.strip_prefix("signals:") {
        return files::oneshot_signals(f);
    }
    pure::oneshot(arg)
}
