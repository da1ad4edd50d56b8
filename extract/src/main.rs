//! Mechanical extraction of puck functions into a Verus file.
//!
//! usage: extract <repo root> <template> <out.rs> <out.json> [--vacuity] [--mutate FN K]
//!
//! The template is Verus text with `//@` directives (see DESIGN.md).  Everything between `//@fn`
//! and `//@end` names a function of the repository; its body is taken from the repository's
//! current source on every run, put through the rewriting rules below, and printed with the
//! specification spliced in.  Every rule application is counted in the report.
mod emit;
mod rules;
mod source;
mod template;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: extract <repo> <template> <out.rs> <out.json> [--vacuity]");
        std::process::exit(2);
    }
    let mut opt = template::Opt::default();
    let mut i = 5;
    while i < a.len() {
        match a[i].as_str() {
            "--vacuity" => opt.vacuity = true,
            "--mutate" => {
                opt.mutate = Some((a[i + 1].clone(), a[i + 2].parse().unwrap()));
                i += 2;
            }
            "--flat" => {
                opt.flat.push(a[i + 1].clone());
                i += 1;
            }
            "--locals" => {
                for l in std::fs::read_to_string(&a[i + 1]).unwrap_or_default().lines() {
                    let f: Vec<&str> = l.split('\t').collect();
                    if f.len() == 3 {
                        let v = f[2].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
                        opt.locals.insert((f[0].to_string(), f[1].to_string()), v);
                    }
                }
                i += 1;
            }
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let vac = opt.vacuity;
    match template::run(&a[1], &a[2], opt) {
        Ok((text, json)) => {
            let text = if vac {
                let t: String = text.lines().map(|l| if l.starts_with("pub proof fn") || l.starts_with("proof fn") || l.starts_with("pub broadcast proof fn") {
                    format!("#[verifier::external_body] {}\n", l)
                } else {
                    format!("{}\n", l)
                }).collect();
                t + "verus! {\n#[verifier::external_body]\npub fn vac_any<T>() -> (r: T) ensures false { unimplemented!() }\n}\n"
            } else {
                text
            };
            std::fs::write(&a[3], text).unwrap();
            std::fs::write(&a[4], json).unwrap();
        }
        Err(e) => {
            // a lost anchor: the driver treats this as "not decided by proof", never as an alarm
            println!("EXTRACT-ERROR {}", e);
            std::process::exit(3);
        }
    }
}
