fn main() {
    println!("cargo:rustc-cfg=optiprism_verif");
    println!("cargo:rustc-check-cfg=cfg(optiprism_verif)");
    pbgen::compile("/repo/src/storage/src/pb");
}
