// puck/src/body/mime.rs keeps the parameters of a MIME type to its crate: compile the file itself
fn main() {
    let p = "/repo/puck/src/body/mime.rs";
    println!("cargo:rerun-if-changed={}", p);
    let s = std::fs::read_to_string(p).unwrap();
    let s: String = s.lines().map(|l| if l.trim_start().starts_with("//!") { "\n".to_string() } else { format!("{}\n", l) }).collect();
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{}/mime.rs", out), s).unwrap();
}
