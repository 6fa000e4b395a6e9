mod conc;
mod custom;
mod dicts;
mod engine;
mod env;
#[allow(dead_code)]
#[path = "../../h_common/src/gen.rs"]
mod gen;
mod kinds;
mod misc;
mod props;

use mon::Mon;

fn m01(m: &mut Mon) {
    m.rule("every entity reads back, by id, by key and in lists, with exactly the fields last written");
    m.assume("times are kept to the second and an empty list is kept like a missing one: that is what the stored form can hold");
    engine::run(m, "M01", 400, 20000, 100, 3000);
    m.require("histories", 50);
    conc::run(m, "M01", 150, 6000, 25, 600, (1, 1));
    misc::run(m, "M01", 300, 10000, 60, 900);
    m.require("operations on the other stores", 1000);
    m.require("concurrent updates", 10);
    m.require("updated", 100);
    m.require("reopened", 20);
}
fn m02(m: &mut Mon) {
    m.rule("no two live entities of a scope share a unique key, and lookups by key find its owner");
    engine::run(m, "M02", 400, 20000, 100, 3000);
    conc::run(m, "M02", 250, 10000, 40, 900, (1, 1));
    m.require("concurrent renames", 10);
    m.require("create refused", 50);
    m.require("update refused", 20);
}
fn m03(m: &mut Mon) {
    m.rule("no id is given twice, no counter loses an increment, sequences grow, also under concurrency");
    m.assume("a create refused because another transaction holds a lock is a refusal, not a loss");
    conc::run(m, "M03", 500, 20000, 60, 1500, (1, 2));
    engine::run(m, "M03", 100, 5000, 20, 600);
    misc::run(m, "M03", 120, 5000, 25, 600);
    m.require("concurrent creates", 100);
    m.require("sequence numbers taken concurrently", 100);
    m.require("counter increments", 100);
}
fn m04(m: &mut Mon) {
    m.rule("an operation that reports an error leaves the store as it was; a deleted entity is gone from every lookup");
    m.assume("sequence counters may advance in a failed operation");
    engine::run(m, "M04", 600, 30000, 100, 3000);
    conc::run(m, "M04", 150, 6000, 25, 600, (1, 1));
    m.require("concurrent deletes", 5);
    m.require("failed operations checked for traces", 100);
    m.require("create failed by fault", 20);
}
fn m05(m: &mut Mon) {
    m.rule("an operation in one scope changes nothing in any other");
    engine::run(m, "M05", 400, 20000, 100, 3000);
    misc::run(m, "M05", 300, 10000, 60, 900);
    m.require("operations on the other stores", 1000);
    m.require("scopes compared", 1000);
}

fn main() {
    mon::main_with(&[("M01", m01), ("M02", m02), ("M03", m03), ("M04", m04), ("M05", m05), ("M06", custom::m06), ("M07", dicts::m07), ("M08", props::m08)])
}
