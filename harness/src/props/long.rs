//! Long runs of one thing in every lexical context.

use crate::core::Ctx;

/// (before, repeated, after)
type Run = (&'static str, &'static str, &'static str);

/// White space and comments, which may stand between any two tokens.
pub const LAYOUT: &[Run] = &[
    ("", " ", ""),
    ("", "\n", ""),
    ("", "\r\n", ""),
    ("", "\r", " "),
    ("", "\t", ""),
    ("", " \n", ""),
    ("", "\n ", ""),
    ("", "\u{3000}", ""),
    ("", "\u{a0}\n", ""),
    ("", "(**)", ""),
    ("", "(* x *)\n", ""),
    ("(*", " ", "*)"),
    ("(*", "\n", "*)"),
    ("(*", "\r\n", "*)"),
    ("(* ", "*", " *)"),
    ("(*", "*", "*)"),
    ("(* ", "(", " *)"),
    ("(*", ")", "*)"),
    ("(* ", "(*", " *)"),
    ("(*", "a", "*)"),
    ("(*", "x \n", "*)"),
    ("(*", "\"", "*)"),
    ("(*", "\\", "*)"),
    ("(*", "\u{e9}", "*)"),
    ("(*", "\u{1f980}\n", "*)"),
    ("(*x\n\n", "y\n", "z*)"),
    ("(*", "\t", "*)\n"),
    ("\n\n(*\n", "    line of a comment, with words and = * ( ) signs\n", "*)"),
];

/// Tokens that may be long.
pub const TOKENS: &[Run] = &[
    ("\"", " ", "\""),
    ("\"", "\n", "\""),
    ("\"", "\r\n", "\""),
    ("\"", "a", "\""),
    ("\"", "\u{e9}", "\""),
    ("\"", "\u{4e2d}\n", "\""),
    ("\"", "\\\"", "\""),
    ("\"", "(*", "\""),
    ("\"", "*)", "\""),
    ("\"", "\\n", "\""),
    ("x", "a", ""),
    ("x", "_", ""),
    ("x", "9", ""),
    ("c", "Z", "_"),
    ("C", "a", ""),
    ("ByStr", "x", ""),
    ("_", "_", ""),
    ("_", "a", ""),
    ("'A", "b", ""),
    ("", "7", ""),
    ("", "0", "1"),
    ("-", "9", ""),
    ("0x", "aB", ""),
    ("0x", "0", ""),
    ("ByStr", "1", ""),
    ("ByStr", "0", ""),
];

pub fn lengths(ctx: &Ctx) -> &'static [usize] {
    if ctx.thorough {
        &[127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 70_000, 131_073, 1_000_003]
    } else {
        &[128, 255, 256, 257, 300, 1_025, 32_769, 65_535, 65_536, 65_537, 70_000]
    }
}

pub fn run(r: &Run, n: usize) -> String {
    format!("{}{}{}", r.0, r.1.repeat(n), r.2)
}
