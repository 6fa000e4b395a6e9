//! Generators of scalars and request trees.
use std::sync::Arc;

use chrono::DateTime;
use chrono::TimeZone;
use chrono::Utc;
use common::event_segmentation as es;
use common::funnel as fu;
use common::query::*;
use datafusion_common::ScalarValue;
use mon::Rng;

pub fn tz(r: &mut Rng) -> Option<Arc<str>> {
    match r.below(4) {
        0 => Some("UTC".into()),
        1 => Some("+02:00".into()),
        2 => Some("Europe/Berlin".into()),
        _ => None,
    }
}
fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.chance(1, 5) { None } else { Some(f(r)) }
}
pub fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.next() as u8).collect()
}
pub fn i128_edge(r: &mut Rng) -> i128 {
    match r.below(6) {
        0 => 0,
        1 => i128::MAX,
        2 => i128::MIN,
        3 => r.i64_edge() as i128,
        4 => r.i64_edge() as i128 * 10i128.pow(16),
        _ => ((r.next() as u128) << 64 | r.next() as u128) as i128,
    }
}
pub const KINDS: usize = 29;
/// `text`: restrict floats to values every text form keeps (finite, few digits).
pub fn scalar_kind(r: &mut Rng, kind: usize, text: bool) -> ScalarValue {
    let f64v = |r: &mut Rng| if text { r.range(-100_000, 100_000) as f64 / 8.0 } else { f64::from_bits(r.next()) };
    let f32v = |r: &mut Rng| if text { r.range(-10_000, 10_000) as f32 / 4.0 } else { f32::from_bits(r.next() as u32) };
    match kind {
        0 => ScalarValue::Null,
        1 => ScalarValue::Boolean(opt(r, |r| r.bool())),
        2 => ScalarValue::Float32(opt(r, f32v)),
        3 => ScalarValue::Float64(opt(r, f64v)),
        4 => {
            let p = 1 + r.below(38) as u8;
            let s = r.range(-10, p as i64) as i8;
            let (p, s) = if r.bool() { (28, 16) } else { (p, s) };
            ScalarValue::Decimal128(opt(r, i128_edge), p, s)
        }
        5 => ScalarValue::Int8(opt(r, |r| r.i64_edge() as i8)),
        6 => ScalarValue::Int16(opt(r, |r| r.i64_edge() as i16)),
        7 => ScalarValue::Int32(opt(r, |r| r.i64_edge() as i32)),
        8 => ScalarValue::Int64(opt(r, |r| r.i64_edge())),
        9 => ScalarValue::UInt8(opt(r, |r| r.i64_edge() as u8)),
        10 => ScalarValue::UInt16(opt(r, |r| r.i64_edge() as u16)),
        11 => ScalarValue::UInt32(opt(r, |r| r.i64_edge() as u32)),
        12 => ScalarValue::UInt64(opt(r, |r| r.i64_edge() as u64)),
        13 => ScalarValue::Utf8(opt(r, |r| r.string())),
        14 => ScalarValue::LargeUtf8(opt(r, |r| r.string())),
        15 => ScalarValue::Binary(opt(r, |r| { let n = r.below(9); bytes(r, n) })),
        16 => ScalarValue::LargeBinary(opt(r, |r| { let n = r.below(9); bytes(r, n) })),
        17 => {
            let n = r.below(9);
            ScalarValue::FixedSizeBinary(n as i32, opt(r, |r| bytes(r, n)))
        }
        18 => ScalarValue::Date32(opt(r, |r| if text { r.range(-100_000, 100_000) as i32 } else { r.i64_edge() as i32 })),
        19 => ScalarValue::Date64(opt(r, |r| if text { r.range(-8_000_000_000_000, 8_000_000_000_000) } else { r.i64_edge() })),
        20 => ScalarValue::Time32Second(opt(r, |r| r.i64_edge() as i32)),
        21 => ScalarValue::Time32Millisecond(opt(r, |r| r.i64_edge() as i32)),
        22 => ScalarValue::Time64Microsecond(opt(r, |r| r.i64_edge())),
        23 => ScalarValue::Time64Nanosecond(opt(r, |r| r.i64_edge())),
        24 => ScalarValue::TimestampSecond(opt(r, |r| r.i64_edge()), tz(r)),
        25 => ScalarValue::TimestampMillisecond(opt(r, |r| r.i64_edge()), tz(r)),
        26 => ScalarValue::TimestampMicrosecond(opt(r, |r| r.i64_edge()), tz(r)),
        27 => ScalarValue::TimestampNanosecond(opt(r, |r| r.i64_edge()), tz(r)),
        _ => ScalarValue::IntervalYearMonth(opt(r, |r| r.i64_edge() as i32)),
    }
}
pub fn scalar(r: &mut Rng) -> ScalarValue {
    let k = r.below(KINDS);
    scalar_kind(r, k, true)
}
/// Kind, nullness and content (ScalarValue's own equality ignores time zones).
pub fn describe(v: &ScalarValue) -> String {
    let body = match v {
        ScalarValue::Float32(Some(f)) => format!("{:08x}", f.to_bits()),
        ScalarValue::Float64(Some(f)) => format!("{:016x}", f.to_bits()),
        ScalarValue::Utf8(x) => format!("{x:?}"),
        ScalarValue::LargeUtf8(x) => format!("{x:?}"),
        ScalarValue::Binary(x) | ScalarValue::LargeBinary(x) | ScalarValue::FixedSizeBinary(_, x) => format!("{x:?}"),
        ScalarValue::Decimal128(x, p, s) => format!("{x:?} {p} {s}"),
        ScalarValue::TimestampSecond(x, z) | ScalarValue::TimestampMillisecond(x, z) | ScalarValue::TimestampMicrosecond(x, z) | ScalarValue::TimestampNanosecond(x, z) => format!("{x:?} {z:?}"),
        ScalarValue::Date32(x) => format!("{x:?}"),
        ScalarValue::Date64(x) => format!("{x:?}"),
        ScalarValue::Time32Second(x) | ScalarValue::Time32Millisecond(x) => format!("{x:?}"),
        ScalarValue::Time64Microsecond(x) | ScalarValue::Time64Nanosecond(x) => format!("{x:?}"),
        ScalarValue::IntervalYearMonth(x) => format!("{x:?}"),
        o => format!("{o:?}"),
    };
    format!("{:?} {} {body}", std::mem::discriminant(v), v.data_type())
}

pub fn date(r: &mut Rng) -> DateTime<Utc> {
    Utc.timestamp_opt(r.range(-4_000_000_000, 8_000_000_000), if r.bool() { 0 } else { r.below(1_000_000_000) as u32 }).unwrap()
}
pub fn unit(r: &mut Rng) -> TimeIntervalUnit {
    r.pick(&[TimeIntervalUnit::Hour, TimeIntervalUnit::Day, TimeIntervalUnit::Week, TimeIntervalUnit::Month, TimeIntervalUnit::Year]).clone()
}
fn list<T>(r: &mut Rng, max: usize, f: fn(&mut Rng) -> T) -> Vec<T> {
    let n = r.below(max + 1);
    (0..n).map(|_| f(r)).collect()
}
fn optlist<T>(r: &mut Rng, max: usize, f: fn(&mut Rng) -> T) -> Option<Vec<T>> {
    if r.chance(1, 3) { None } else { Some(list(r, max, f)) }
}
pub fn prop_ref(r: &mut Rng) -> PropertyRef {
    match r.below(3) {
        0 => PropertyRef::Group(r.string(), r.below(6)),
        1 => PropertyRef::Event(r.string()),
        _ => PropertyRef::Custom(r.i64_edge() as u64),
    }
}
pub fn event_ref(r: &mut Rng) -> EventRef {
    match r.below(3) {
        0 => EventRef::RegularName(r.string()),
        1 => EventRef::Regular(r.i64_edge() as u64),
        _ => EventRef::Custom(r.i64_edge() as u64),
    }
}
pub const OPS: [PropValueOperation; 14] = [
    PropValueOperation::Eq, PropValueOperation::Neq, PropValueOperation::Gt, PropValueOperation::Gte,
    PropValueOperation::Lt, PropValueOperation::Lte, PropValueOperation::True, PropValueOperation::False,
    PropValueOperation::Exists, PropValueOperation::Empty, PropValueOperation::Like, PropValueOperation::NotLike,
    PropValueOperation::Regex, PropValueOperation::NotRegex,
];
pub fn op(r: &mut Rng) -> PropValueOperation {
    r.pick(&OPS).clone()
}
pub fn filter(r: &mut Rng) -> PropValueFilter {
    PropValueFilter::Property { property: prop_ref(r), operation: op(r), value: optlist(r, 3, scalar) }
}
pub fn breakdown(r: &mut Rng) -> Breakdown {
    Breakdown::Property(prop_ref(r))
}
pub fn query_time(r: &mut Rng) -> QueryTime {
    match r.below(3) {
        0 => QueryTime::Between { from: date(r), to: date(r) },
        1 => QueryTime::From(date(r)),
        _ => QueryTime::Last { last: r.i64_edge(), unit: unit(r) },
    }
}
pub fn seg_time(r: &mut Rng) -> SegmentTime {
    match r.below(5) {
        0 => SegmentTime::Between { from: date(r), to: date(r) },
        1 => SegmentTime::From(date(r)),
        2 => SegmentTime::Last { n: r.i64_edge(), unit: unit(r) },
        3 => SegmentTime::AfterFirstUse { within: r.i64_edge(), unit: unit(r) },
        _ => SegmentTime::Each { n: r.i64_edge(), unit: unit(r) },
    }
}
pub const QAGG: [QueryAggregate; 10] = [
    QueryAggregate::Min, QueryAggregate::Max, QueryAggregate::Sum, QueryAggregate::Avg, QueryAggregate::Median,
    QueryAggregate::DistinctCount, QueryAggregate::Percentile25th, QueryAggregate::Percentile75th,
    QueryAggregate::Percentile90th, QueryAggregate::Percentile99th,
];
pub fn agg(r: &mut Rng) -> AggregateFunction {
    r.pick(&[AggregateFunction::Count, AggregateFunction::Sum, AggregateFunction::Min, AggregateFunction::Max, AggregateFunction::Avg]).clone()
}
pub fn pagg(r: &mut Rng) -> PartitionedAggregateFunction {
    r.pick(&[PartitionedAggregateFunction::Count, PartitionedAggregateFunction::Sum, PartitionedAggregateFunction::Avg, PartitionedAggregateFunction::Min, PartitionedAggregateFunction::Max]).clone()
}
pub fn did(r: &mut Rng) -> DidEventAggregate {
    match r.below(4) {
        0 => DidEventAggregate::Count { operation: op(r), value: r.i64_edge(), time: seg_time(r) },
        1 => DidEventAggregate::RelativeCount { event: event_ref(r), operation: op(r), filters: optlist(r, 2, filter), time: seg_time(r) },
        2 => DidEventAggregate::AggregateProperty { property: prop_ref(r), aggregate: r.pick(&QAGG).clone(), operation: op(r), value: opt(r, scalar), time: seg_time(r) },
        _ => DidEventAggregate::HistoricalCount { operation: op(r), value: r.next(), time: seg_time(r) },
    }
}
pub fn seg_cond(r: &mut Rng) -> SegmentCondition {
    match r.below(3) {
        0 => SegmentCondition::HasPropertyValue { property: prop_ref(r), operation: op(r), value: optlist(r, 3, scalar) },
        1 => SegmentCondition::HadPropertyValue { property: prop_ref(r), operation: op(r), value: optlist(r, 3, scalar), time: seg_time(r) },
        _ => SegmentCondition::DidEvent { event: event_ref(r), filters: optlist(r, 2, filter), aggregate: did(r) },
    }
}
pub fn segment(r: &mut Rng) -> Segment {
    Segment { name: r.string(), conditions: list(r, 2, |r| list(r, 2, seg_cond)) }
}
pub fn es_query(r: &mut Rng) -> es::Query {
    match r.below(9) {
        0 => es::Query::CountEvents,
        1 => es::Query::CountUniqueGroups,
        2 => es::Query::DailyActiveGroups,
        3 => es::Query::WeeklyActiveGroups,
        4 => es::Query::MonthlyActiveGroups,
        5 => es::Query::CountPerGroup { aggregate: agg(r) },
        6 => es::Query::AggregatePropertyPerGroup { property: prop_ref(r), aggregate_per_group: pagg(r), aggregate: agg(r) },
        7 => es::Query::AggregateProperty { property: prop_ref(r), aggregate: agg(r) },
        _ => es::Query::QueryFormula { formula: r.string() },
    }
}
pub fn es_event(r: &mut Rng) -> es::Event {
    let queries = list(r, 3, |r| es::NamedQuery::new(es_query(r), if r.bool() { None } else { Some(r.string()) }));
    es::Event::new(event_ref(r), optlist(r, 3, filter), optlist(r, 2, breakdown), queries)
}
pub fn es_request(r: &mut Rng) -> es::EventSegmentationRequest {
    es::EventSegmentationRequest {
        time: query_time(r),
        group_id: r.below(6),
        interval_unit: unit(r),
        chart_type: r.pick(&[es::ChartType::Line, es::ChartType::Column, es::ChartType::Pie]).clone(),
        analysis: match r.below(4) {
            0 => es::Analysis::Linear,
            1 => es::Analysis::RollingAverage { window: r.below(100), unit: unit(r) },
            2 => es::Analysis::Logarithmic,
            _ => es::Analysis::Cumulative,
        },
        compare: opt(r, |r| es::Compare { offset: r.below(100), unit: unit(r) }),
        events: list(r, 3, es_event),
        filters: optlist(r, 3, filter),
        breakdowns: optlist(r, 3, breakdown),
        segments: optlist(r, 2, segment),
    }
}
pub fn fu_event(r: &mut Rng) -> fu::Event {
    fu::Event { event: event_ref(r), filters: optlist(r, 2, filter) }
}
pub fn funnel(r: &mut Rng) -> fu::Funnel {
    use fu::TimeIntervalUnitSession as S;
    fu::Funnel {
        time: query_time(r),
        group_id: r.below(6),
        steps: list(r, 4, |r| fu::Step {
            events: list(r, 2, fu_event),
            order: if r.bool() { fu::StepOrder::Exact } else { fu::StepOrder::Any(list(r, 3, |r| (r.below(5), r.below(5)))) },
        }),
        time_window: fu::TimeWindow { n: r.below(100), unit: r.pick(&[S::Hour, S::Day, S::Week, S::Month, S::Year, S::Session]).clone() },
        chart_type: match r.below(4) {
            0 => fu::ChartType::Steps,
            1 => fu::ChartType::ConversionOverTime { interval_unit: unit(r) },
            2 => fu::ChartType::TimeToConvert { interval_unit: unit(r), min_interval: r.i64_edge(), max_interval: r.i64_edge() },
            _ => fu::ChartType::Frequency,
        },
        count: r.pick(&[fu::Count::Unique, fu::Count::NonUnique, fu::Count::Session]).clone(),
        filter: opt(r, |r| match r.below(3) {
            0 => fu::Filter::DropOffOnAnyStep,
            1 => fu::Filter::DropOffOnStep(r.below(9)),
            _ => fu::Filter::TimeToConvert(r.i64_edge(), r.i64_edge()),
        }),
        touch: opt(r, |r| match r.below(3) {
            0 => fu::Touch::First,
            1 => fu::Touch::Last,
            _ => fu::Touch::Step { step: r.below(9) },
        }),
        holding_constants: optlist(r, 3, prop_ref),
        exclude: optlist(r, 3, |r| fu::Exclude {
            event: event_ref(r),
            filters: optlist(r, 2, filter),
            steps: match r.below(3) {
                0 => None,
                1 => Some(fu::ExcludeSteps::All),
                _ => Some(fu::ExcludeSteps::Between(r.below(5), r.below(5))),
            },
        }),
        breakdowns: optlist(r, 3, breakdown),
        segments: optlist(r, 2, segment),
        filters: optlist(r, 3, filter),
    }
}
