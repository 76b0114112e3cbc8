use common::event_segmentation as es;
use common::funnel as fu;
use common::query::*;
use datafusion_expr::AggregateFunction as DfAgg;
use datafusion_expr::Operator as Df;
use vk::*;

const NOPS: usize = 14;
fn op(k: usize) -> PropValueOperation {
    use PropValueOperation::*;
    match k {
        0 => Eq,
        1 => Neq,
        2 => Gt,
        3 => Gte,
        4 => Lt,
        5 => Lte,
        6 => Regex,
        7 => NotRegex,
        8 => True,
        9 => False,
        10 => Exists,
        11 => Empty,
        12 => Like,
        _ => NotLike,
    }
}

/// What a comparison means on ordered values.
fn holds(o: &Df, a: i64, b: i64) -> bool {
    match o {
        Df::Eq => a == b,
        Df::NotEq => a != b,
        Df::Gt => a > b,
        Df::GtEq => a >= b,
        Df::Lt => a < b,
        Df::LtEq => a <= b,
        _ => panic!("not an ordering operator"),
    }
}

/// A filter means the same thing after every translation on its way to the engine.
/// bound: all comparison operations, all pairs of i64
/// encodes: common::query (PropValueOperation -> Operator -> datafusion Operator, PropValueOperation -> datafusion Operator)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn v05_comparisons() {
    let k = below(6);
    let (a, b) = (any_i64(), any_i64());
    let want = match k {
        0 => a == b,
        1 => a != b,
        2 => a > b,
        3 => a >= b,
        4 => a < b,
        _ => a <= b,
    };
    witness!(k == 5 && want);
    let o: Operator = op(k).into();
    let d: Df = o.into();
    assert!(holds(&d, a, b) == want);
    let e: Df = op(k).try_into().unwrap();
    assert!(e == d);
    assert!(Operator::from(d) == o);
}

/// bound: the regular-expression operations and every operation without a value
/// encodes: common::query (PropValueOperation, Operator)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn v05_regex() {
    let neg = any_bool();
    let k = if neg { 7 } else { 6 };
    let want = if neg { Df::RegexNotMatch } else { Df::RegexMatch };
    let o: Operator = op(k).into();
    let d: Df = o.into();
    let e: Df = op(k).try_into().unwrap();
    witness!(neg);
    assert!(d == want && e == want && Operator::from(d) == o);
    let j = below(NOPS);
    witness!(j == 11);
    assert!(op(j).is_without_value() == (j >= 8 && j <= 11));
}

/// bound: all supported aggregates
/// encodes: common::query (AggregateFunction <-> datafusion AggregateFunction, QueryAggregate::aggregate_function)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn v05_aggregates() {
    let k = below(4);
    let (a, d) = match k {
        0 => (AggregateFunction::Count, DfAgg::Count),
        1 => (AggregateFunction::Min, DfAgg::Min),
        2 => (AggregateFunction::Max, DfAgg::Max),
        _ => (AggregateFunction::Avg, DfAgg::Avg),
    };
    witness!(k == 3);
    let x: DfAgg = a.clone().into();
    assert!(x == d);
    assert!(AggregateFunction::from(d) == a);
    let (q, w) = match k {
        0 => (QueryAggregate::Sum, AggregateFunction::Sum),
        1 => (QueryAggregate::Min, AggregateFunction::Min),
        2 => (QueryAggregate::Max, AggregateFunction::Max),
        _ => (QueryAggregate::Avg, AggregateFunction::Avg),
    };
    assert!(q.aggregate_function() == w);
}

/// bound: all time units
/// encodes: common::query::TimeUnit <-> arrow_schema::TimeUnit
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn v05_time_unit() {
    use arrow_schema::TimeUnit as A;
    let k = below(4);
    let (a, t) = match k {
        0 => (A::Second, TimeUnit::Second),
        1 => (A::Millisecond, TimeUnit::Millisecond),
        2 => (A::Microsecond, TimeUnit::Microsecond),
        _ => (A::Nanosecond, TimeUnit::Nanosecond),
    };
    witness!(k == 3);
    let x: TimeUnit = a.try_into().unwrap();
    assert!(x == t);
    let y: A = t.try_into().unwrap();
    assert!(y == a);
}

/// A saved query's column names are the ones the engine produces, and different kinds of queries get different columns.
/// bound: every kind of query the engine runs
/// encodes: common::event_segmentation::Query::initial_name, common::types reserved columns
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn v05_query_columns() {
    use common::types::*;
    let k = below(6);
    let p = PropertyRef::Custom(1);
    let (q, w) = match k {
        0 => (es::Query::CountEvents, RESERVED_COLUMN_COUNT),
        1 => (es::Query::CountUniqueGroups, RESERVED_COLUMN_AGG_PARTITIONED_COUNT),
        2 => (es::Query::DailyActiveGroups, RESERVED_COLUMN_AGG_PARTITIONED_COUNT),
        3 => (es::Query::CountPerGroup { aggregate: AggregateFunction::Avg }, RESERVED_COLUMN_AGG_PARTITIONED_COUNT),
        4 => (
            es::Query::AggregatePropertyPerGroup {
                property: p,
                aggregate_per_group: PartitionedAggregateFunction::Sum,
                aggregate: AggregateFunction::Avg,
            },
            RESERVED_COLUMN_AGG_PARTITIONED_AGGREGATE,
        ),
        _ => (es::Query::AggregateProperty { property: p, aggregate: AggregateFunction::Avg }, RESERVED_COLUMN_AGG),
    };
    witness!(k == 5);
    assert!(q.initial_name() == w);
    let c = [RESERVED_COLUMN_COUNT, RESERVED_COLUMN_AGG_PARTITIONED_COUNT, RESERVED_COLUMN_AGG_PARTITIONED_AGGREGATE, RESERVED_COLUMN_AGG,
        COLUMN_SEGMENT, COLUMN_CREATED_AT, COLUMN_EVENT, COLUMN_EVENT_ID, COLUMN_PROJECT_ID, COLUMN_IP];
    let (i, j) = (below(10), below(10));
    assume(i != j);
    assert!(c[i] != c[j]);
}

/// bound: every chart of a funnel
/// encodes: common::funnel::ChartType::time_interval
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn v05_chart() {
    let u = match below(5) {
        0 => TimeIntervalUnit::Hour,
        1 => TimeIntervalUnit::Day,
        2 => TimeIntervalUnit::Week,
        3 => TimeIntervalUnit::Month,
        _ => TimeIntervalUnit::Year,
    };
    let k = below(4);
    let c = match k {
        0 => fu::ChartType::Steps,
        1 => fu::ChartType::ConversionOverTime { interval_unit: u.clone() },
        2 => fu::ChartType::TimeToConvert { interval_unit: u.clone(), min_interval: any_i64(), max_interval: any_i64() },
        _ => fu::ChartType::Frequency,
    };
    witness!(k == 2);
    assert!(c.time_interval() == if k == 1 || k == 2 { Some(u) } else { None });
}
