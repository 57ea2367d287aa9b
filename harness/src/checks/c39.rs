//! C39: the web page shows the formula that was typed in, whatever arrives when.
use super::c37::{one, Work};
use crate::fw::*;

pub fn check() -> Check {
    Check {
        id: "C39",
        enumerate,
        run: |_, parts, obs| one("web", parts, obs),
        rule: "an execution is a history of formulas typed in and of what arrives (the compiler's script, the converter, a formula rendered), \
               which a scheduler runs on the code of mitex-web; every history within the bounds in which each event is possible is run; at \
               rest the page must show the conversion of what was typed in last, or the error, the same formula rendered, and copy it",
        assumptions: &[
            "node runs the code, bundled from /repo's current tree by esbuild, with stand-ins for vanjs-core, the converter, the compiler and the elements of the page",
            "the compiler answers in the order in which it is asked",
        ],
        hang_s: 300,
    }
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    let mut w = Work::new("web");
    let d = |a, b| if q { a } else { b };
    for c in ["at once", "later", "dark, at once", "dark, later"] {
        w.sweep(ctx, c, "LWSa!t", d(7, 9));
        w.sweep(ctx, c, "LWSaetqnbBsu!", d(5, 6));
    }
    w.run(ctx);
}
