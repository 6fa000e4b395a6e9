use std::fs;

use quote::ToTokens;

// The functions of /repo/src/cmd/src/lib.rs that put the server together (tables, ingester,
// platform, session cleaner, settings), made public. What only concerns metrics and
// directories, and the modules of the command line, is left out with its imports.
fn main() {
    let f = "/repo/src/cmd/src/lib.rs";
    println!("cargo:rerun-if-changed={f}");
    let src = syn::parse_file(&fs::read_to_string(f).unwrap()).unwrap();
    let known = ["std", "storage", "axum", "chrono", "common", "ingester", "maxminddb", "metadata", "platform", "query", "rand", "tracing", "uaparser", "crate", "hex"];
    let mut out = String::new();
    for i in src.items {
        let t = match i {
            syn::Item::Use(u) => {
                let root = match &u.tree {
                    syn::UseTree::Path(p) => p.ident.to_string(),
                    _ => continue,
                };
                if !known.contains(&root.as_str()) {
                    continue;
                }
                u.to_token_stream().to_string()
            }
            syn::Item::Fn(mut f) => {
                if ["init_metrics", "init_fs", "clenaup_fs"].contains(&f.sig.ident.to_string().as_str()) {
                    continue;
                }
                f.vis = syn::parse_quote!(pub);
                f.to_token_stream().to_string()
            }
            syn::Item::Mod(_) | syn::Item::ExternCrate(_) => continue,
            i => i.to_token_stream().to_string(),
        };
        out.push_str(&t);
        out.push('\n');
    }
    fs::write(format!("{}/root.rs", std::env::var("OUT_DIR").unwrap()), out).unwrap();
}
