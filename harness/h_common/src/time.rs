//! C06, C07, C08, C10: calendar monitors. The oracle is an independent proleptic Gregorian
//! calendar on integer days (no chrono).
use chrono::DateTime;
use chrono::Datelike;
use chrono::TimeZone;
use chrono::Timelike;
use chrono::Utc;
use common::event_segmentation::Analysis;
use common::event_segmentation::ChartType;
use common::event_segmentation::EventSegmentationRequest;
use common::funnel::TimeIntervalUnitSession;
use common::query::date_trunc;
use common::query::time_columns;
use common::query::QueryTime;
use common::query::SegmentTime;
use common::query::TimeIntervalUnit as U;
use mon::*;
use serde_json::json;

pub const UNITS: [U; 5] = [U::Hour, U::Day, U::Week, U::Month, U::Year];
const DAY: i64 = 86_400;

// ---- independent calendar
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}
pub fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z - era * 146_097;
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (if m <= 2 { y + 1 } else { y }, m, d)
}
fn month_len(y: i64, m: i64) -> i64 {
    let (ny, nm) = if m == 12 { (y + 1, 1) } else { (y, m + 1) };
    days_from_civil(ny, nm, 1) - days_from_civil(y, m, 1)
}
/// (start, next start) of the unit containing second s
pub fn unit_bounds(u: &U, s: i64) -> (i64, i64) {
    let day = s.div_euclid(DAY);
    let (y, m, _) = civil(day);
    match u {
        U::Hour => {
            let h = s.div_euclid(3600) * 3600;
            (h, h + 3600)
        }
        U::Day => (day * DAY, day * DAY + DAY),
        U::Week => {
            // 1970-01-01 was a Thursday
            let wd = (day + 3).rem_euclid(7);
            ((day - wd) * DAY, (day - wd + 7) * DAY)
        }
        U::Month => {
            let a = days_from_civil(y, m, 1);
            (a * DAY, (a + month_len(y, m)) * DAY)
        }
        U::Year => (days_from_civil(y, 1, 1) * DAY, days_from_civil(y + 1, 1, 1) * DAY),
    }
}
fn shift_months(s: i64, n: i64) -> i64 {
    let day = s.div_euclid(DAY);
    let (y, m, d) = civil(day);
    let t = y * 12 + (m - 1) + n;
    let (ny, nm) = (t.div_euclid(12), t.rem_euclid(12) + 1);
    days_from_civil(ny, nm, d.min(month_len(ny, nm))) * DAY + s.rem_euclid(DAY)
}
fn back(u: &U, s: i64, n: i64) -> i64 {
    match u {
        U::Hour => s - n * 3600,
        U::Day => s - n * DAY,
        U::Week => s - n * 7 * DAY,
        U::Month => shift_months(s, -n),
        U::Year => shift_months(s, -12 * n),
    }
}
pub fn fmt_iso(s: i64) -> String {
    let (y, m, d) = civil(s.div_euclid(DAY));
    let r = s.rem_euclid(DAY);
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", y, m, d, r / 3600, r / 60 % 60, r % 60)
}

pub fn instant(rng: &mut Rng) -> DateTime<Utc> {
    let nanos = match rng.below(5) {
        0 => 0,
        1 => 999_999_999,
        2 => rng.below(1000) as u32 * 1_000_000,
        3 => 1,
        _ => rng.below(1_000_000_000) as u32,
    };
    let lo = days_from_civil(1, 1, 1) * DAY;
    let hi = days_from_civil(9998, 12, 31) * DAY;
    let s = match rng.below(8) {
        0 => rng.range(lo, hi),
        1 | 2 => rng.range(days_from_civil(1960, 1, 1) * DAY, days_from_civil(2040, 1, 1) * DAY),
        3 => {
            // just around a unit boundary
            let s = rng.range(days_from_civil(1890, 1, 1) * DAY, days_from_civil(2110, 1, 1) * DAY);
            let (a, b) = unit_bounds(rng.pick(&UNITS), s);
            *rng.pick(&[a - 1, a, a + 1, b - 1, b])
        }
        4 => {
            // last days of months
            let y = rng.range(1896, 2104);
            let m = rng.range(1, 12);
            days_from_civil(y, m, month_len(y, m)) * DAY + rng.range(0, DAY - 1)
        }
        5 => {
            // around new year
            let y = rng.range(1900, 2100);
            days_from_civil(y, 1, 1) * DAY + rng.range(-8 * DAY, 8 * DAY)
        }
        6 => {
            let y = *rng.pick(&[1600, 1700, 1896, 1900, 1904, 1996, 2000, 2004, 2023, 2024, 2100, 2400]);
            days_from_civil(y, 2, 28) * DAY + rng.range(0, 2 * DAY)
        }
        _ => rng.range(-3 * DAY, 3 * DAY),
    };
    Utc.timestamp_opt(s, nanos).unwrap()
}

pub fn c07(m: &mut Mon) {
    m.rule("Instants: uniform over years 1..9998, boundaries of every unit +-1 s, month ends, leap days, new years, pre-1970, with sub-second parts; each truncated to all five units. Non-trivial: the truncation moved the instant; distinct by (unit, instant).");
    let n = m.n(30_000, 3_000_000);
    let mut rng = m.rng.fork();
    for i in 0..n {
        if i % 1024 == 0 && !m.within(20, 400) {
            break;
        }
        let t = instant(&mut rng);
        let other = if rng.bool() { instant(&mut rng) } else { t + chrono::Duration::milliseconds(rng.range(-100_000_000, 100_000_000)) };
        for u in &UNITS {
            let r = guarded(|| date_trunc(u, t));
            let got = match r {
                Ok(Ok(g)) => g,
                Ok(Err(e)) => {
                    m.violation("trunc-error", format!("truncating {t:?} to {u:?} fails: {e:?}"), json!(null));
                    continue;
                }
                Err(p) => {
                    m.violation("trunc-panic", format!("truncating {t:?} to {u:?}: {p}"), json!(null));
                    continue;
                }
            };
            let (a, _) = unit_bounds(u, t.timestamp());
            m.observed((u, t), got != t);
            m.count(&format!("unit_{}", u.as_str()), 1);
            if got.timestamp() != a || got.nanosecond() != 0 {
                m.violation("trunc-wrong", format!("{t:?} truncated to {u:?} gave {got:?}, the {u:?} containing it starts at {}", fmt_iso(a)), json!({"input": t.to_rfc3339(), "unit": u.as_str()}));
            }
            if got > t {
                m.violation("trunc-after", format!("{t:?} to {u:?} gave a later instant {got:?}"), json!(null));
            }
            if let Ok(Ok(again)) = guarded(|| date_trunc(u, got)) {
                m.check(again == got, "trunc-idempotent", || format!("{t:?} {u:?}: {got:?} truncates again to {again:?}"));
            }
            if let Ok(Ok(og)) = guarded(|| date_trunc(u, other)) {
                m.count("pairs", 1);
                let same_unit = unit_bounds(u, other.timestamp()).0 == a;
                m.check((og == got) == same_unit, "trunc-classes", || format!("{t:?} and {other:?} to {u:?}: {got:?} {og:?}"));
                m.check((t <= other) <= (got <= og) && (other <= t) <= (og <= got), "trunc-monotone", || format!("{t:?} {other:?} {u:?}: {got:?} {og:?}"));
            }
        }
        m.sample(|| json!({"instant": t.to_rfc3339(), "hour..year": UNITS.iter().map(|u| date_trunc(u, t).map(|x| x.to_rfc3339()).unwrap_or_default()).collect::<Vec<_>>()}));
    }
    m.require("unit_week", 1000);
    m.require("pairs", 1000);
}

fn req(time: QueryTime, unit: U) -> EventSegmentationRequest {
    EventSegmentationRequest {
        time,
        group_id: 0,
        interval_unit: unit,
        chart_type: ChartType::Line,
        analysis: Analysis::Linear,
        compare: None,
        events: vec![],
        filters: None,
        breakdowns: None,
        segments: None,
    }
}

pub fn c06(m: &mut Mon) {
    m.rule("Current instants as in C07 and ranges of all three kinds, n from 0 to several hundred units. Oracle: independent integer calendar. Non-trivial: a relative range with n>0, or an absolute one with distinct ends; distinct by (range, now).");
    let n = m.n(15_000, 3_000_000);
    let mut rng = m.rng.fork();
    for i in 0..n {
        if i % 1024 == 0 && !m.within(20, 400) {
            break;
        }
        let mut now = instant(&mut rng);
        if now.year() < 1200 || now.year() > 9000 {
            now = Utc.timestamp_opt(rng.range(-4_000_000_000, 8_000_000_000), 0).unwrap();
        }
        let a = instant(&mut rng);
        let b = instant(&mut rng);
        let u = rng.pick(&UNITS).clone();
        let k = match rng.below(4) {
            0 => rng.range(0, 3),
            1 => rng.range(0, 40),
            2 => rng.range(0, 800),
            _ => *rng.pick(&[0, 1, 6, 7, 11, 12, 13, 24, 30, 31, 52, 365, 366]),
        };
        for q in [QueryTime::Between { from: a, to: b }, QueryTime::From(a), QueryTime::Last { last: k, unit: u.clone() }] {
            let r = match guarded(|| q.range(now)) {
                Ok(r) => r,
                Err(p) => {
                    m.violation("range-panic", format!("{q:?} at {now:?}: {p}"), json!(null));
                    continue;
                }
            };
            match &q {
                QueryTime::Between { from, to } => {
                    m.observed((0, a, b), a != b);
                    m.check(r == (*from, *to), "between", || format!("{q:?} resolved to {r:?}"));
                }
                QueryTime::From(from) => {
                    m.observed((1, a, now), true);
                    m.check(r == (*from, now), "from", || format!("{q:?} at {now:?} resolved to {r:?}"));
                }
                QueryTime::Last { last, unit } => {
                    m.observed((unit, last, now), *last > 0);
                    m.count(&format!("last_{}", unit.as_str()), 1);
                    let want = back(unit, now.timestamp(), *last);
                    m.check(r.1 == now, "last-end", || format!("{q:?} at {now:?} ends at {:?}", r.1));
                    m.check(r.0.timestamp() == want && r.0.nanosecond() == now.nanosecond(), "last-start", || {
                        format!("{q:?} at {now:?} starts at {:?}, expected {}", r.0, fmt_iso(want))
                    });
                    m.check(r.0 <= r.1, "last-order", || format!("{q:?} at {now:?}: {r:?}"));
                    if let Ok(r2) = guarded(|| QueryTime::Last { last: last + 1, unit: unit.clone() }.range(now)) {
                        m.check(r2.0 <= r.0, "last-monotone", || format!("{q:?} at {now:?}: {:?} but one more {:?}", r.0, r2.0));
                    }
                }
            }
        }
        // the request's columns agree with its range (bounded number of columns)
        let span = match u {
            U::Hour => 200,
            _ => 60,
        };
        let kk = k.min(span);
        let q = QueryTime::Last { last: kk, unit: u.clone() };
        match guarded(|| {
            let r = q.range(now);
            (req(q.clone(), u.clone()).time_columns(now), time_columns(r.0, r.1, &u))
        }) {
            Ok((x, y)) => {
                m.count("columns_agree", 1);
                m.check(x == y, "request-columns", || format!("{q:?} at {now:?}: request columns {x:?}, range columns {y:?}"));
            }
            Err(p) => m.violation("columns-panic", format!("{q:?} at {now:?}: {p}"), json!(null)),
        }
        m.sample(|| json!({"now": now.to_rfc3339(), "last": k, "unit": u.as_str(), "start": QueryTime::Last{last:k,unit:u.clone()}.range(now).0.to_rfc3339()}));
    }
    m.require("last_month", 500);
    m.require("columns_agree", 500);
}

pub fn c08(m: &mut Mon) {
    m.rule("Ranges of 0 to some dozens of units starting at instants as in C07, all granularities; the columns are compared with the starts of all units an independent integer calendar finds between the two ends. Non-trivial: at least two columns; distinct by (unit, from, to).");
    let n = m.n(12_000, 1_000_000);
    let mut rng = m.rng.fork();
    for i in 0..n {
        if i % 256 == 0 && !m.within(25, 400) {
            break;
        }
        let from = instant(&mut rng);
        if from.year() > 9800 {
            continue;
        }
        let u = rng.pick(&UNITS).clone();
        let len = match u {
            U::Hour => rng.range(0, 60 * 3600),
            U::Day => rng.range(0, 40 * DAY),
            U::Week => rng.range(0, 60 * 7 * DAY),
            U::Month => rng.range(0, 40 * 31 * DAY),
            U::Year => rng.range(0, 12 * 366 * DAY),
        };
        let len = if rng.chance(1, 8) { len % 3 } else { len };
        let mut to = from + chrono::Duration::seconds(len);
        if rng.chance(1, 4) {
            // end exactly at, just before or just after a boundary
            let (a, b) = unit_bounds(&u, to.timestamp());
            let e = *rng.pick(&[a, a - 1, b, b - 1]);
            if e >= from.timestamp() {
                to = Utc.timestamp_opt(e.max(from.timestamp()), from.nanosecond()).unwrap();
            }
        }
        let cols = match guarded(|| time_columns(from, to, &u)) {
            Ok(c) => c,
            Err(p) => {
                m.violation("columns-panic", format!("{from:?}..{to:?} {u:?}: {p}"), json!(null));
                continue;
            }
        };
        let mut want = vec![];
        let mut s = unit_bounds(&u, from.timestamp()).0;
        while s <= to.timestamp() {
            want.push(fmt_iso(s));
            s = unit_bounds(&u, s).1;
        }
        m.observed((&u, from, to), want.len() > 1);
        m.count("columns", cols.len() as u64);
        if cols != want {
            m.violation("columns-wrong", format!("{from:?}..{to:?} by {u:?}: got {cols:?}, expected {want:?}"), json!({"from": from.to_rfc3339(), "to": to.to_rfc3339(), "unit": u.as_str()}));
        }
        // any instant inside finds its column by the text of its truncation
        for _ in 0..3 {
            let span = (to - from).num_milliseconds().max(1);
            let t = from + chrono::Duration::milliseconds(rng.range(0, span - 1));
            if let Ok(Ok(tr)) = guarded(|| date_trunc(&u, t)) {
                let name = tr.naive_utc().format("%Y-%m-%dT%H:%M:%S").to_string();
                let hits = cols.iter().filter(|c| **c == name).count();
                m.count("lookups", 1);
                m.check(hits == 1, "column-lookup", || format!("{t:?} in {from:?}..{to:?} by {u:?} truncates to {name}, found in {hits} columns of {cols:?}"));
            }
        }
        m.sample(|| json!({"from": from.to_rfc3339(), "to": to.to_rfc3339(), "unit": u.as_str(), "columns": cols.len(), "first": cols.first(), "last": cols.last()}));
    }
    m.require("lookups", 1000);
}

pub fn c10(m: &mut Mon) {
    m.rule("All five units of the general and the funnel unit type with n in -1000..1000 and larger values; calendar steps applied to instants as in C07. Non-trivial: n != 0; distinct by (unit, n).");
    let mut rng = m.rng.fork();
    let sess = [
        TimeIntervalUnitSession::Hour,
        TimeIntervalUnitSession::Day,
        TimeIntervalUnitSession::Week,
        TimeIntervalUnitSession::Month,
        TimeIntervalUnitSession::Year,
    ];
    let hours = [1i64, 24, 168, 24 * 31, 24 * 31 * 12];
    let names = ["hour", "day", "week", "month", "year"];
    let mut ns: Vec<i64> = (-50..=1000).collect();
    for _ in 0..m.n(2000, 100_000) {
        ns.push(rng.range(-100_000, 100_000));
    }
    for (i, u) in UNITS.iter().enumerate() {
        m.check(u.as_str() == names[i], "unit-name", || format!("{u:?} is named {}", u.as_str()));
        m.check(sess[i].as_str() == names[i], "unit-name-funnel", || format!("{:?} is named {}", sess[i], sess[i].as_str()));
        for &n in &ns {
            m.observed((i, n), n != 0);
            let want = n * hours[i] * 3_600_000;
            match guarded(|| (u.duration(n), sess[i].duration(n), SegmentTime::Each { n, unit: u.clone() }.try_window())) {
                Ok((a, b, w)) => {
                    m.count("durations", 1);
                    m.check(a.num_milliseconds() == want, "duration", || format!("{n} {u:?} lasts {a:?}"));
                    m.check(b.num_milliseconds() == want, "duration-funnel", || format!("{n} funnel {u:?} lasts {b:?}"));
                    m.check(w == Some(want), "window", || format!("each {n} {u:?} has window {w:?}"));
                }
                Err(p) => m.violation("duration-panic", format!("{n} {u:?}: {p}"), json!(null)),
            }
            if n.abs() < 1500 {
                let t = Utc.timestamp_opt(rng.range(days_from_civil(1800, 1, 1) * DAY, days_from_civil(2300, 1, 1) * DAY), 0).unwrap();
                if !(t.year() as i64 - n.abs() > 5) && i == 4 {
                    continue;
                }
                match guarded(|| (t + u.relative_duration(n), t + sess[i].relative_duration(n))) {
                    Ok((a, b)) => {
                        m.count("steps", 1);
                        let want = back(u, t.timestamp(), -n);
                        m.check(a.timestamp() == want, "calendar-step", || format!("{t:?} + {n} {u:?} = {a:?}, expected {}", fmt_iso(want)));
                        m.check(b.timestamp() == want, "calendar-step-funnel", || format!("{t:?} + {n} funnel {u:?} = {b:?}, expected {}", fmt_iso(want)));
                    }
                    Err(p) => m.violation("step-panic", format!("{t:?} + {n} {u:?}: {p}"), json!(null)),
                }
            }
        }
        m.sample(|| json!({"unit": u.as_str(), "one": u.duration(1).num_seconds()}));
    }
    // no window for other segment times
    for st in [SegmentTime::From(Utc::now()), SegmentTime::Last { n: 3, unit: U::Day }, SegmentTime::AfterFirstUse { within: 2, unit: U::Day }, SegmentTime::Between { from: Utc::now(), to: Utc::now() }] {
        m.check(st.try_window().is_none(), "window-none", || format!("{st:?} has a window"));
    }
    m.require("steps", 1000);
}
