fn main() {
    pbgen::compile("/repo/src/metadata/src/pb");
}
