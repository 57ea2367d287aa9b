//! Shared helpers: enumeration of token sequences, spec access.
use crate::fw::Ctx;
pub use mitex_parser::spec::CommandSpec;
pub use mitex_spec_gen::DEFAULT_SPEC;

pub fn text(s: &str) -> Result<String, String> {
    mitex::convert_text(s, None)
}
pub fn math(s: &str) -> Result<String, String> {
    mitex::convert_math(s, None)
}
pub fn spec() -> CommandSpec {
    DEFAULT_SPEC.clone()
}

/// Calls `f` on every sequence over `0..k` with a length in `lo..=hi`, shortest first.
pub fn seqs(k: usize, lo: usize, hi: usize, mut f: impl FnMut(&[usize])) {
    for len in lo..=hi {
        let mut v = vec![0usize; len];
        'all: loop {
            f(&v);
            let mut i = len;
            loop {
                if i == 0 {
                    break 'all;
                }
                i -= 1;
                v[i] += 1;
                if v[i] < k {
                    break;
                }
                v[i] = 0;
            }
        }
    }
}

/// Runs `kind` on every concatenation of `lo..=hi` pieces of `alpha`.
pub fn each_concat(ctx: &mut Ctx, kind: &str, alpha: &[&str], lo: usize, hi: usize, pre: &str, post: &str) {
    let mut s = String::new();
    seqs(alpha.len(), lo, hi, |v| {
        if ctx.turn() {
            s.clear();
            s.push_str(pre);
            for i in v {
                s.push_str(alpha[*i]);
            }
            s.push_str(post);
            ctx.exec(kind, &[&s]);
        }
    });
    ctx.bound(format!("{kind}: every sequence of {lo}..={hi} pieces over an alphabet of {}{}{}", alpha.len(),
        if pre.is_empty() { "" } else { ", after " }, pre.escape_debug()));
}

pub fn esc(s: &str) -> String {
    s.escape_debug().to_string()
}
