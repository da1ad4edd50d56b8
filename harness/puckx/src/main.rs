mod ctx;
mod http;
mod refs;
mod ws;
#[global_allocator]
static A: ctx::Watch = ctx::Watch;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string());
    let prop = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let scale: u64 = get("--scale", "1").parse().unwrap();
    let secs: u64 = get("--secs", "60").parse().unwrap();
    let only = if a.iter().any(|x| x == "--family") { Some((get("--family", ""), get("--index", "0").parse().unwrap())) } else { None };
    let mut c = ctx::Ctx::new(&prop, seed, scale, secs, only);
    match prop.as_str() {
        "C01" => ws::c01(&mut c),
        "C02" => http::c02(&mut c),
        "C03" => ws::c03(&mut c),
        "C04" => ws::c04(&mut c),
        "C05" => ws::c05(&mut c),
        "C06" => http::c06(&mut c),
        "C07" => http::c07(&mut c),
        "C08" => http::c08(&mut c),
        "C09" => http::c09(&mut c),
        "C10" => http::c10(&mut c),
        "C11" => http::c11(&mut c),
        "C12" => http::c12(&mut c),
        "C13" => http::c13(&mut c),
        "C14" => http::c14(&mut c),
        "C23" => http::c23(&mut c),
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2);
        }
    }
    println!("RESULT {}", c.json());
}
