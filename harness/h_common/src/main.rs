mod gen;
mod http;
mod time;
mod types;

fn main() {
    mon::main_with(&[
        ("C01", types::c01),
        ("C02", types::c02),
        ("C03", types::c03),
        ("C04", types::c04),
        ("C05", types::c05),
        ("C06", time::c06),
        ("C07", time::c07),
        ("C08", time::c08),
        ("C09", types::c09),
        ("C10", time::c10),
        ("C11", http::c11),
        ("C12", http::c12),
        ("C13", types::c13),
    ])
}
