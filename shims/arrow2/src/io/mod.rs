pub mod parquet;
pub mod print {
    use crate::array::{scalar, Array};
    use crate::chunk::Chunk;
    pub fn write<A: AsRef<dyn Array>, N: AsRef<str>>(chunks: &[Chunk<A>], names: &[N]) -> String {
        let mut s = names.iter().map(|n| n.as_ref().to_string()).collect::<Vec<_>>().join(" | ");
        for c in chunks {
            for r in 0..c.len() {
                s.push('\n');
                s.push_str(
                    &c.arrays().iter().map(|a| format!("{:?}", scalar::get(a.as_ref(), r))).collect::<Vec<_>>().join(" | "),
                );
            }
        }
        s
    }
}
