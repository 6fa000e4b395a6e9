#![allow(macro_expanded_macro_exports_accessed_by_absolute_paths)]
// The real crate root, /repo/src/query/src/lib.rs, with its removed nightly feature gates
// (`concat_idents`) taken out by build.rs. All other modules are compiled in place.
extern crate core;
include!(concat!(env!("OUT_DIR"), "/root.rs"));
