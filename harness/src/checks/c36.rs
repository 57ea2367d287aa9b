//! C36: an image is the file that the source names, in the size that it asks for.
use crate::den::*;
use crate::fw::*;

pub fn check() -> Check {
    Check {
        id: "C36",
        enumerate,
        run,
        rule: "a state is an \\includegraphics with the options, path, layout, place and neighbours chosen so far; every combination within \
               the bounds is translated and evaluated by Typst, and what arrives at Typst's image function is compared",
        assumptions: &[
            "the installed Typst compiler is the judge of Typst; its image function is replaced by one that shows its arguments",
            "the width and height of a text and of what contains an image are both what Typst's 100% means",
        ],
        hang_s: 120,
    }
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.states += 1;
    obs.transitions += 1;
    obs.traces += 1;
    run_one(kind, parts)
}

/// (an option, what it sets, to what)
const OPTIONS: [(&str, &str, &str); 25] = [
    ("width=0.5\\textwidth", "width", "50%"),
    ("width=\\textwidth", "width", "100%"),
    ("width=.25\\linewidth", "width", "25%"),
    ("width=\\linewidth", "width", "100%"),
    ("width = 2\\columnwidth", "width", "200%"),
    ("width=\\columnwidth", "width", "100%"),
    ("width=\\hsize", "width", "100%"),
    ("width=72pt", "width", "72pt"),
    ("width= 2.54cm", "width", "72pt"),
    ("width=25.4mm ", "width", "72pt"),
    ("width=1in", "width", "72pt"),
    ("width=2em", "width", "2em"),
    ("width=5 pt", "width", "5pt"),
    ("width=0.5 \\textwidth", "width", "50%"),
    ("height=\\textheight", "height", "100%"),
    ("height=.5\\textheight", "height", "50%"),
    ("height=1.5\\textwidth", "height", "150%"),
    ("height =3pt", "height", "3pt"),
    ("height=1in", "height", "72pt"),
    ("angle=45", "", ""),
    ("scale=0.5", "", ""),
    ("keepaspectratio", "", ""),
    ("keepaspectratio=true", "", ""),
    ("clip", "", ""),
    ("trim=1pt 2pt 3pt 4pt", "", ""),
];
const SEPARATORS: [&str; 6] = [",", ", ", " ,", ",\n", ",%c\n  ", "%, width=1pt\n,"];
const LAYOUTS: [(&str, &str); 12] = [
    ("\\includegraphics[①]{②}", ""), ("\\includegraphics[ ① ]{ ② }", ""), ("\\includegraphics [①] {②}", ""),
    ("\\includegraphics\n[①]\n{②}", ""), ("\\includegraphics%c\n[%c\n①%]\n]%c\n{②}", ""), ("\\includegraphics[\n  ①\n  ]{②}", ""),
    ("\\includegraphics[①]{%c\n  ②%}\n}", ""), ("\\includegraphics[①]\n  {\n②\n}", ""),
    ("\\includegraphics[①,]{②}", ""), ("\\includegraphics[①%c\n]{②}", ""), ("\\includegraphics [%\n  ①%\n  ] %\n {②}", ""),
    ("\\includegraphics[,①]{②}", ""),
];
/// (a place, what it shows)
const PLACES: [(&str, &str); 16] = [
    ("③④", "③④"),
    ("a③④ b", "a③④ b"),
    ("{③}④", "③④"),
    ("{③④}", "③④"),
    ("\\textbf{③④}", "strong(③④)"),
    ("\\section{a ③④}", "heading1(a ③④)"),
    ("\\begin{quote}③④\\end{quote}", "quote(③④)"),
    ("\\begin{itemize}\\item ③④\\end{itemize}", "•⦅③④⦆"),
    ("\\begin{tabular}{cc}③④&a\\end{tabular}", "table[center,center]⟦③④¦a⟧"),
    ("\\begin{figure}③④\\end{figure}", "figure(③④)"),
    ("\\begin{figure}\\centering ③④\\caption{c}\\end{figure}", "figure(③④|c)"),
    ("\\textcolor{red}{③④}", "⦃⟪red⟫③④⦄"),
    ("③③④", "③③④"),
    ("③{}④", "③④"),
    ("③%c\n  ④", "③④"),
    ("$x$③④", "「x」③④"),
];
const AFTER: [(&str, &str); 19] = [
    ("", ""), (".b", ".b"), (".", "."), ("(b)", "(b)"), ("[b]", "[b]"), (";", ";"), (" .b", " .b"), (":b", ":b"), ("b", "b"), (" b", " b"),
    ("\\%", "%"), ("$x$", "「x」"), ("{.b}", ".b"), ("\\textbf{b}", "strong(b)"), ("-", "-"), ("*b*", "*b*"), ("_b", "_b"), ("=b", "=b"), ("1", "1"),
];

fn shown(set: &[&(&str, &str, &str)], path: &str) -> String {
    let mut s = "image(".to_string();
    for key in ["width", "height"] {
        for o in set {
            if o.1 == key {
                s.push_str(&format!("{key}: {}, ", o.2));
            }
        }
    }
    s + &format!("\"{path}\")")
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    let mut b = DenBatch::new("text");

    // options, in every order
    let mut count = 0u64;
    crate::util::seqs(OPTIONS.len(), 1, if q { 2 } else { 3 }, |v| {
        let set: Vec<_> = v.iter().map(|i| &OPTIONS[*i]).collect();
        if (0..set.len()).any(|i| (0..i).any(|j| set[i].1 == set[j].1 && (set[i].1 != "" || set[i].0 == set[j].0))) {
            return;
        }
        for (k, sep) in SEPARATORS.iter().enumerate() {
            if set.len() == 1 && k > 0 {
                break;
            }
            let opts = set.iter().map(|o| o.0).collect::<Vec<_>>().join(sep);
            for (l, _) in if set.len() > 2 { &LAYOUTS[..1] } else { &LAYOUTS[..] } {
                count += 1;
                b.add(ctx, || (l.replace('①', &opts).replace('②', "p.png"), shown(&set, "p.png")));
            }
        }
    });
    ctx.bound(format!("options: all {count} combinations of up to {} of {} options with every separator and layout", if q { 2 } else { 3 }, OPTIONS.len()));

    // paths
    let chars = ["a", "B", "1", "-", "_", ".", "/", " ", "é", ",", "=", "'", "(", ")", ":", "+", "@", "!"];
    let mut count = 0u64;
    crate::util::seqs(chars.len(), 1, if q { 2 } else { 3 }, |v| {
        let path: String = v.iter().map(|i| chars[*i]).collect();
        if path.trim() != path || path.contains("  ") {
            return;
        }
        for (t, set) in [
            ("\\includegraphics{②}", &[][..]),
            ("\\includegraphics[width=1in]{②}", &[&OPTIONS[10]][..]),
            ("\\includegraphics[]{%c\n②}", &[][..]),
            ("\\begin{figure}\\includegraphics[height=1in]{② }\\end{figure}", &[&OPTIONS[18]][..]),
        ] {
            count += 1;
            b.add(ctx, || {
                let d = shown(set, &path);
                (t.replace('②', &path), if t.starts_with("\\begin") { format!("figure({d})") } else { d })
            });
        }
    });
    ctx.bound(format!("paths: all {count} texts with paths of up to {} of {} characters", if q { 2 } else { 3 }, chars.len()));

    // places and neighbours
    let mut count = 0u64;
    let images: Vec<(String, String)> = [&[][..], &[&OPTIONS[0]], &[&OPTIONS[1], &OPTIONS[17]], &[&OPTIONS[19], &OPTIONS[12]]]
        .iter()
        .map(|set| {
            let opts = set.iter().map(|o| o.0).collect::<Vec<_>>().join(",");
            let src = if set.is_empty() { "\\includegraphics{f/a-b.png}".to_string() } else { format!("\\includegraphics[{opts}]{{f/a-b.png}}") };
            (src, shown(set, "f/a-b.png"))
        })
        .collect();
    for (place, den) in PLACES {
        for (after, after_den) in AFTER {
            for (src, d) in &images {
                count += 1;
                b.add(ctx, || {
                    // (a comment takes the blanks that start the next line)
                    let shows = if place.contains('%') { after_den.trim_start() } else { after_den };
                    (place.replace('③', src).replace('④', after), den.replace('③', d).replace('④', shows))
                });
            }
        }
    }
    b.flush(ctx);
    // in formulas
    let mut m = DenBatch::new("math");
    for (src, d) in &images {
        for (t, den) in [
            ("③", "③"), ("x③y", "x③y"), ("\\frac{③}{x}", "frac(③|x)"), ("③.b", "③.b"), ("③(b)", "③(b)"), ("③,b", "③,b"), ("③;b", "③;b"),
            ("\\text{③}x", "③x"), ("\\text{③.b}x", "③.bx"), ("\\begin{matrix}③&③\\\\③\\end{matrix}", "mat(none,none)⟦③¦③⁏③⟧"), ("x_{③}", "‹x›_‹③›"),
            ("\\sqrt{③}", "root(|③)"),
        ] {
            count += 1;
            m.add(ctx, || (t.replace('③', src), den.replace('③', d)));
        }
    }
    m.flush(ctx);
    ctx.bound(format!("places: all {count} combinations of {} images, {} places and {} pieces that follow", images.len(), PLACES.len(), AFTER.len()));
}
