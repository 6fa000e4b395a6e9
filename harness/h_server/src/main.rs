mod crud;
mod errs;
mod filt;
mod ingest;
mod login;
mod perm;
mod server;
mod trans;
mod vals;
use mon::Mon;
use mon::Rng;

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn i01(m: &mut Mon) {
    m.rule("every accepted event is stored once, with the name, time, user, groups and values sent, and nothing else");
    ingest::concurrent(m, &mut Rng::new(seed() * 1000 + 31), "I01", 20, (12, 300));
    ingest::sequences(m, &mut Rng::new(seed() * 1000 + 21), "I01", 60, (45, 900));
    m.require("events compared", 500);
    m.require("requests at once", 100);
}
fn i02(m: &mut Mon) {
    m.rule("every group record holds the last value sent for each of its properties");
    ingest::sequences(m, &mut Rng::new(seed() * 1000 + 22), "I02", 80, (40, 700));
    m.require("records compared", 500);
}
fn i03(m: &mut Mon) {
    m.rule("a request that must be refused is answered with a client error and leaves nothing behind");
    ingest::refusals(m, &mut Rng::new(seed() * 1000 + 23), 40, (40, 700));
    m.require("requests refused", 200);
}
fn i04(m: &mut Mon) {
    m.rule("a session begins with the first event of a user without one, and ends once it has been idle for as long as the project says");
    ingest::concurrent(m, &mut Rng::new(seed() * 1000 + 34), "I04", 12, (10, 200));
    ingest::sessions(m, &mut Rng::new(seed() * 1000 + 24), 25, (45, 700));
    m.require("session begins compared", 200);
    m.require("session ends compared", 20);
    m.require("sessions kept open", 50);
}
fn p01(m: &mut Mon) {
    m.rule("a request is taken to come from an account only with a token made for it, and its password alone logs it in");
    login::run(m, &mut Rng::new(seed() * 1000 + 40), 25, (45, 600));
    m.require("forged tokens", 500);
    m.require("genuine tokens", 50);
    m.require("logged in", 50);
    m.require("logins refused", 50);
    m.require("passwords changed", 20);
}
fn p02(m: &mut Mon) {
    m.rule("an operation is refused, without effect, exactly to accounts whose roles do not grant it");
    perm::run(m, &mut Rng::new(seed() * 1000 + 41), "P02", 90, (95, 700));
    m.require("operations granted", 300);
    m.require("operations refused", 300);
}
fn p03(m: &mut Mon) {
    m.rule("nothing of a project shows to, or is changed by, an account that has no role in it or its organisation");
    perm::run(m, &mut Rng::new(seed() * 1000 + 42), "P03", 80, (80, 700));
    m.require("foreign projects watched", 500);
    m.require("foreign projects tried", 100);
    m.require("foreign ids tried", 50);
}
fn p04(m: &mut Mon) {
    m.rule("a JSON value is the same value inside, among the rows it is looked up in, and on its way out");
    vals::run(m, &mut Rng::new(seed() * 1000 + 43), 60, (45, 600));
    m.require("values converted", 5000);
    m.require("values rendered", 10000);
    m.require("filters compared", 200);
    m.require("custom events compared", 100);
    m.require("cells compared", 1000);
    m.require("values refused", 100);
}
fn p05(m: &mut Mon) {
    m.rule("the request kept inside, and answered, has the same parts in the same order as the one sent");
    trans::run(m, &mut Rng::new(seed() * 1000 + 44), 4000, (40, 600));
    m.require("requests translated", 500);
    m.require("sorted searches", 50);
    m.require("reports read later", 100);
}
fn p06(m: &mut Mon) {
    m.rule("every failure is answered with the status of its kind; requests of clients alone are no internal errors");
    errs::run(m, &mut Rng::new(seed() * 1000 + 45), 60, (45, 600));
    m.require("errors answered", 100);
    m.require("mutated", 500);
    m.require("queries answered", 100);
    m.require("wrong requests", 200);
}
fn p07(m: &mut Mon) {
    m.rule("a filter is accepted exactly when its property is there and its operation and values fit the type");
    filt::run(m, &mut Rng::new(seed() * 1000 + 46), (45.0, 600.0));
    m.require("filters accepted", 500);
    m.require("filters refused", 1000);
}
fn p08(m: &mut Mon) {
    m.rule("what was last written of everything, by whom and when, is what is read, by id, by name and in lists");
    crud::run(m, &mut Rng::new(seed() * 1000 + 47), 60, (45, 600));
    m.require("created", 200);
    m.require("updated", 200);
    m.require("deleted", 50);
    m.require("lists read", 100);
    m.require("read by id", 100);
}
fn main() {
    let _ = std::fs::remove_dir_all(server::base());
    mon::main_with(&[("I01", i01), ("I02", i02), ("I03", i03), ("I04", i04), ("P01", p01), ("P02", p02), ("P03", p03), ("P04", p04), ("P05", p05), ("P06", p06), ("P07", p07), ("P08", p08)]);
}
