use std::fs;
use std::path::Path;

// `concat_idents` was removed from the compiler; paste does the same job. Nothing else in
// the crate root changes, and its modules are compiled from the repository in place.
fn main() {
    println!("cargo:rustc-cfg=optiprism_verif");
    println!("cargo:rustc-check-cfg=cfg(optiprism_verif)");
    let dir = "/repo/src/query/src";
    println!("cargo:rerun-if-changed={dir}/lib.rs");
    let src = fs::read_to_string(format!("{dir}/lib.rs")).unwrap();
    let mut out = String::new();
    for line in src.lines() {
        let t = line.trim();
        if t.starts_with("#![feature(") || t == "extern crate core;" {
            out.push('\n');
            continue;
        }
        let m = t.strip_prefix("pub mod ").or_else(|| t.strip_prefix("mod ")).or_else(|| t.strip_prefix("pub(crate) mod "));
        if let Some(name) = m.and_then(|m| m.strip_suffix(';')) {
            let f = format!("{dir}/{name}.rs");
            let p = if Path::new(&f).exists() { f } else { format!("{dir}/{name}/mod.rs") };
            out.push_str(&format!("#[path = \"{p}\"] {t}\n"));
            continue;
        }
        out.push_str(line);
        out.push('\n');
    }
    let mut i = 0;
    while let Some(p) = out[i..].find("concat_idents!(") {
        let s = i + p;
        let e = s + out[s..].find(')').unwrap();
        let args: Vec<String> = out[s + "concat_idents!(".len()..e].split(',').map(|a| a.trim().to_string()).collect();
        let rep = format!("::paste::paste!([<{}>])", args.join(" "));
        out.replace_range(s..=e, &rep);
        i = s + rep.len();
    }
    let o = std::env::var("OUT_DIR").unwrap();
    fs::write(format!("{o}/root.rs"), out).unwrap();
}
