mod fw;
mod checks;
mod util;
mod globm;
mod gram;
mod texmath;
mod typst;
mod den;
mod reflex;
mod macref;
mod specs;

use fw::Tier;
use std::path::Path;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("no check {id}");
        std::process::exit(2)
    });
    let tier = |t: &str| if t == "thorough" { Tier::Thorough } else { Tier::Quick };
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("check") => fw::check(&find(&a[2]), tier(a.get(3).map(|s| s.as_str()).unwrap_or("quick"))),
        Some("worker") => {
            fw::worker(&find(&a[2]), tier(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap(), Path::new(&a[6]));
            0
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            fw::replay(&find(v["property"].as_str().unwrap()), &v)
        }
        Some("try") => {
            let s = &a[2];
            println!("text: {:?}", mitex::convert_text(s, None));
            println!("math: {:?}", mitex::convert_math(s, None));
            if a.len() > 3 {
                println!("{:#?}", mitex_parser::parse(s, mitex_spec_gen::DEFAULT_SPEC.clone()));
            }
            0
        }
        Some("once") => {
            println!("{}", checks::c22::once(a[2].parse().unwrap()));
            0
        }
        _ => {
            eprintln!("usage: mc check ID TIER | replay FILE | try LATEX");
            2
        }
    };
    std::process::exit(rc);
}
