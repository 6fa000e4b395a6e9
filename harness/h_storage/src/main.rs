mod conc;
mod crash;
mod dbx;
mod gate;
mod hist;
mod merge;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 7 && args[1] == "__crash" {
        crash::child(&args[2..]);
    }
    if args.len() > 3 && args[1] == "__dump" {
        crash::dump(&args[2], &args[3]);
    }
    mon::main_with(&[
        ("S01", hist::s01),
        ("S02", crash::s02),
        ("S03", hist::s03),
        ("S04", hist::s04),
        ("S05", hist::s05),
        ("S06", hist::s06),
        ("S07", merge::s07),
        ("S08", conc::s08),
    ])
}
