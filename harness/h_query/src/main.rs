mod agg;
mod cuts;
mod e2e;
mod funnel;
mod ops;
mod records;
mod util;
mod world;

use mon::Mon;
use mon::Rng;
use util::Run;

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn q01(m: &mut Mon) {
    m.rule("a filter keeps exactly the rows whose value satisfies it");
    e2e::filters(m, &mut Rng::new(seed() * 1000 + 1), &Run::new());
    m.require("requests with filters", 100);
    m.require("rows kept", 500);
}
fn q02(m: &mut Mon) {
    m.rule("every cell of an event segmentation equals a recount of the rows it is about");
    e2e::segmentation(m, &mut Rng::new(seed() * 1000 + 2), &Run::new());
    m.require("requests", 100);
    m.require("cells expected", 1000);
}
fn q03(m: &mut Mon) {
    m.rule("every aggregate equals a recount of the rows of its group");
    let run = Run::new();
    let mut r = Rng::new(seed() * 1000 + 3);
    let n = m.n(600, 40000);
    agg::run(m, &mut r, &run, false, n, 60, 1200);
    m.require("queries over several partitions", 50);
    m.require("combinations of type and aggregate", 40);
    m.require("negative results", 20);
}
fn q04(m: &mut Mon) {
    m.rule("every aggregate over per-user aggregates equals a recount, each user once");
    let run = Run::new();
    let mut r = Rng::new(seed() * 1000 + 4);
    let n = m.n(600, 40000);
    agg::run(m, &mut r, &run, true, n, 60, 1200);
    m.require("queries over several partitions", 50);
    m.require("combinations of type and aggregate", 100);
}
fn q05(m: &mut Mon) {
    m.rule("the answer stays the same however the rows are cut into batches and partitions");
    cuts::requests(m, &mut Rng::new(seed() * 1000 + 5), &Run::new());
    m.require("answers compared", 200);
    m.require("runs with empty batches", 50);
    m.require("rows of answers", 200);
}
fn q06(m: &mut Mon) {
    m.rule("unpivoted and pivoted tables hold exactly the cells of the input, each in its place");
    ops::pivots(m, &mut Rng::new(seed() * 1000 + 6), &Run::new());
    m.require("cells unpivoted", 1000);
    m.require("cells pivoted", 1000);
    m.require("round trips", 100);
    m.require("pivots of more than a thousand groups", 2);
}
fn q07(m: &mut Mon) {
    m.rule("merging, renaming, reordering and labelling keep every row and every other value");
    ops::combining(m, &mut Rng::new(seed() * 1000 + 7), &Run::new());
    m.require("series merged", 300);
    m.require("operator runs", 2000);
}
fn q08(m: &mut Mon) {
    m.rule("every number of a funnel equals a recount of the attempts of each user in time order");
    let run = Run::new();
    funnel::operator(m, &mut Rng::new(seed() * 1000 + 8), &run);
    if !m.violated() {
        funnel::requests(m, &mut Rng::new(seed() * 1000 + 8), &run);
    }
    m.require("operator runs in several partitions", 50);
    m.require("requests", 100);
    m.require("steps compared", 1000);
    m.require("attempts completed", 300);
    m.require("attempts left open", 300);
    m.require("attempts out of time", 200);
    m.require("attempts excluded", 100);
    m.require("attempts of other constants", 100);
}
fn q09(m: &mut Mon) {
    m.rule("the users of a segment are those whose own events satisfy its condition");
    ops::segments(m, &mut Rng::new(seed() * 1000 + 9), &Run::new());
    m.require("users judged", 2000);
    m.require("members", 500);
    m.require("aggregates over segments", 100);
}
fn q10(m: &mut Mon) {
    m.rule("the answers of a project stay the same whatever is written to other projects");
    records::isolation(m, &mut Rng::new(seed() * 1000 + 10), &Run::new());
    m.require("answers compared", 100);
    m.require("foreign records added", 100);
}
fn q11(m: &mut Mon) {
    m.rule("searches and listings return exactly the matching records with their own values");
    records::records(m, &mut Rng::new(seed() * 1000 + 11), &Run::new());
    m.require("event searches", 60);
    m.require("group searches", 30);
    m.require("orders compared", 5);
    m.require("values of single records", 100);
    m.require("value listings", 20);
    m.require("unknown ids refused", 2);
}
fn q12(m: &mut Mon) {
    m.rule("equal keys get equal tags, different keys different tags, and rows stay as they are");
    ops::partitioning(m, &mut Rng::new(seed() * 1000 + 12), &Run::new());
    m.require("different keys", 500);
}
fn q13(m: &mut Mon) {
    m.rule("limited and ordered tables hold whole rows of the input");
    ops::limits(m, &mut Rng::new(seed() * 1000 + 13), &Run::new());
    m.require("rows dropped", 100);
    m.require("rows ordered", 1000);
}
fn q14(m: &mut Mon) {
    m.rule("every code is decoded to the string it was created for");
    ops::dictionaries(m, &mut Rng::new(seed() * 1000 + 14), &Run::new());
    m.require("codes decoded", 1000);
}
fn main() {
    mon::main_with(&[("Q01", q01), ("Q02", q02), ("Q03", q03), ("Q04", q04), ("Q05", q05), ("Q06", q06), ("Q07", q07), ("Q08", q08), ("Q09", q09), ("Q10", q10), ("Q11", q11), ("Q12", q12), ("Q13", q13), ("Q14", q14)])
}
