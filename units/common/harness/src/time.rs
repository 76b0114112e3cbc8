use chrono::*;
use common::query::*;
use vk::*;

/// Any date-time of the given years, leap seconds included.
pub fn any_dt(lo: i32, hi: i32) -> DateTime<Utc> {
    let y = any_i32();
    assume(y >= lo && y <= hi);
    let o = any_u32();
    assume(o >= 1 && o <= 366);
    let d = NaiveDate::from_yo_opt(y, o);
    assume(d.is_some());
    let s = any_u32();
    assume(s < 86400);
    let n = any_u32();
    assume(n < 1_000_000_000 || (n < 2_000_000_000 && s % 60 == 59));
    let t = NaiveTime::from_num_seconds_from_midnight_opt(s, n).unwrap();
    NaiveDateTime::new(d.unwrap(), t).and_utc()
}

/// Any date-time of the four years from `base`, leap seconds included.
pub fn win_dt(base: i32) -> DateTime<Utc> {
    let y = base + (any_u8() & 3) as i32;
    let o = (any_u16() & 511) as u32;
    assume(o >= 1 && o <= 366);
    let d = NaiveDate::from_yo_opt(y, o);
    assume(d.is_some());
    let s = any_u32() & 0x1ffff;
    assume(s < 86400);
    let n = any_u32() & 0x7fffffff;
    assume(n < 1_000_000_000 || (n < 2_000_000_000 && s % 60 == 59));
    let t = NaiveTime::from_num_seconds_from_midnight_opt(s, n).unwrap();
    NaiveDateTime::new(d.unwrap(), t).and_utc()
}

const LO: i32 = 1600;
const HI: i32 = 2400;

fn midnight(r: DateTime<Utc>) -> bool {
    r.hour() == 0 && r.minute() == 0 && r.second() == 0 && r.nanosecond() == 0
}

fn chk_hour(t: DateTime<Utc>) {
    let r = date_trunc(&TimeIntervalUnit::Hour, t).unwrap();
    witness!(r != t);
    assert!(r <= t);
    assert!(r.date_naive() == t.date_naive() && r.hour() == t.hour());
    assert!(r.minute() == 0 && r.second() == 0 && r.nanosecond() == 0);
    witness!(t.nanosecond() >= 1_000_000_000);
}
/// bound: every date-time of the years 1968-1971 (around the epoch; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (hour)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_hour_1968() {
    chk_hour(win_dt(1968));
}
/// bound: every date-time of the years 1998-2001 (with the leap year 2000; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (hour)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_hour_1998() {
    chk_hour(win_dt(1998));
}
/// bound: every date-time of the years 2023-2026 (with the leap year 2024; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (hour)
/// tier: thorough
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_hour_2023() {
    chk_hour(win_dt(2023));
}
/// bound: every date-time of the years 2098-2101 (with the common year 2100; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (hour)
/// tier: thorough
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_hour_2098() {
    chk_hour(win_dt(2098));
}
/// soft: yes
/// bound: every date-time of the years 1600-2400 (nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (hour)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_hour_wide() {
    chk_hour(any_dt(LO, HI));
}

fn chk_day(t: DateTime<Utc>) {
    let r = date_trunc(&TimeIntervalUnit::Day, t).unwrap();
    witness!(r != t);
    assert!(r <= t && r.date_naive() == t.date_naive() && midnight(r));
}
/// bound: every date-time of the years 1968-1971 (around the epoch; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (day)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_day_1968() {
    chk_day(win_dt(1968));
}
/// bound: every date-time of the years 1998-2001 (with the leap year 2000; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (day)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_day_1998() {
    chk_day(win_dt(1998));
}
/// bound: every date-time of the years 2023-2026 (with the leap year 2024; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (day)
/// tier: thorough
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_day_2023() {
    chk_day(win_dt(2023));
}
/// bound: every date-time of the years 2098-2101 (with the common year 2100; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (day)
/// tier: thorough
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_day_2098() {
    chk_day(win_dt(2098));
}
/// soft: yes
/// bound: every date-time of the years 1600-2400 (nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (day)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_day_wide() {
    chk_day(any_dt(LO, HI));
}

fn chk_week(t: DateTime<Utc>) {
    let r = date_trunc(&TimeIntervalUnit::Week, t).unwrap();
    witness!(r.year() != t.year());
    assert!(r <= t && midnight(r));
    assert!(r.weekday() == Weekday::Mon);
    let dd = t.num_days_from_ce() - r.num_days_from_ce();
    assert!(dd >= 0 && dd < 7);
    witness!(dd == 6);
}
/// bound: every date-time of the years 1968-1971 (around the epoch; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (week)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_week_1968() {
    chk_week(win_dt(1968));
}
/// bound: every date-time of the years 1998-2001 (with the leap year 2000; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (week)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_week_1998() {
    chk_week(win_dt(1998));
}
/// bound: every date-time of the years 2023-2026 (with the leap year 2024; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (week)
/// tier: thorough
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_week_2023() {
    chk_week(win_dt(2023));
}
/// bound: every date-time of the years 2098-2101 (with the common year 2100; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (week)
/// tier: thorough
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_week_2098() {
    chk_week(win_dt(2098));
}
/// soft: yes
/// bound: every date-time of the years 1600-2400 (nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (week)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_week_wide() {
    chk_week(any_dt(LO, HI));
}

fn chk_month(t: DateTime<Utc>) {
    let r = date_trunc(&TimeIntervalUnit::Month, t).unwrap();
    witness!(t.day() == 28 && t.month() == 2);
    assert!(r <= t && midnight(r));
    assert!(r.year() == t.year() && r.month() == t.month() && r.day() == 1);
}
/// bound: every date-time of the years 1968-1971 (around the epoch; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (month)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_month_1968() {
    chk_month(win_dt(1968));
}
/// bound: every date-time of the years 1998-2001 (with the leap year 2000; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (month)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_month_1998() {
    chk_month(win_dt(1998));
}
/// bound: every date-time of the years 2023-2026 (with the leap year 2024; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (month)
/// tier: thorough
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_month_2023() {
    chk_month(win_dt(2023));
}
/// bound: every date-time of the years 2098-2101 (with the common year 2100; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (month)
/// tier: thorough
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_month_2098() {
    chk_month(win_dt(2098));
}
/// soft: yes
/// bound: every date-time of the years 1600-2400 (nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (month)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_month_wide() {
    chk_month(any_dt(LO, HI));
}

fn chk_year(t: DateTime<Utc>) {
    let r = date_trunc(&TimeIntervalUnit::Year, t).unwrap();
    witness!(t.ordinal() == 365);
    assert!(r <= t && midnight(r));
    assert!(r.year() == t.year() && r.ordinal() == 1);
}
/// bound: every date-time of the years 1968-1971 (around the epoch; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (year)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_year_1968() {
    chk_year(win_dt(1968));
}
/// bound: every date-time of the years 1998-2001 (with the leap year 2000; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (year)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_year_1998() {
    chk_year(win_dt(1998));
}
/// bound: every date-time of the years 2023-2026 (with the leap year 2024; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (year)
/// tier: thorough
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_year_2023() {
    chk_year(win_dt(2023));
}
/// bound: every date-time of the years 2098-2101 (with the common year 2100; nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (year)
/// tier: thorough
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_year_2098() {
    chk_year(win_dt(2098));
}
/// soft: yes
/// bound: every date-time of the years 1600-2400 (nanoseconds and leap seconds included)
/// encodes: common::query::date_trunc (year)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn t01_year_wide() {
    chk_year(any_dt(LO, HI));
}

macro_rules! num {
    ($b:expr, $($i:expr),*) => {{
        let mut v = 0i64;
        $(assert!($b[$i].is_ascii_digit()); v = v * 10 + ($b[$i] - b'0') as i64;)*
        v
    }};
}
fn same(s: &str, t: NaiveDateTime) -> bool {
    let b = s.as_bytes();
    b.len() == 19
        && num!(b, 0, 1, 2, 3) == t.year() as i64
        && b[4] == b'-'
        && num!(b, 5, 6) == t.month() as i64
        && b[7] == b'-'
        && num!(b, 8, 9) == t.day() as i64
        && b[10] == b'T'
        && num!(b, 11, 12) == t.hour() as i64
        && b[13] == b':'
        && num!(b, 14, 15) == t.minute() as i64
        && b[16] == b':'
        && num!(b, 17, 18) == t.second() as i64
}

fn any_unit() -> TimeIntervalUnit {
    match below(5) {
        0 => TimeIntervalUnit::Hour,
        1 => TimeIntervalUnit::Day,
        2 => TimeIntervalUnit::Week,
        3 => TimeIntervalUnit::Month,
        _ => TimeIntervalUnit::Year,
    }
}

/// Any whole-nanosecond date-time of the years 2023-2026.
fn near_dt() -> DateTime<Utc> {
    let y = 2023 + (any_u8() & 3) as i32;
    let o = (any_u16() & 511) as u32;
    assume(o >= 1 && o <= 366);
    let d = NaiveDate::from_yo_opt(y, o);
    assume(d.is_some());
    let s = any_u32() & 0x1ffff;
    assume(s < 86400);
    let n = any_u32() & 0x3fffffff;
    assume(n < 1_000_000_000);
    let t = NaiveTime::from_num_seconds_from_midnight_opt(s, n).unwrap();
    NaiveDateTime::new(d.unwrap(), t).and_utc()
}
fn far_dt() -> DateTime<Utc> {
    any_dt(1970, 2100)
}

// Column k of the expected list is the start of the k-th bucket after the bucket of `from`.
fn columns(
    dt: fn() -> DateTime<Utc>,
    u: TimeIntervalUnit,
    width: i64,
    key: fn(DateTime<Utc>) -> i64,
    nth: fn(DateTime<Utc>, i64) -> NaiveDateTime,
) {
    let f = dt();
    let t = dt();
    let n = key(t) - key(f) + 1;
    assume(n <= width && n >= -width);
    let c = time_columns(f, t, &u);
    witness!(n == width);
    witness!(n < 0);
    if n <= 0 {
        assert!(c.len() == 0);
        return;
    }
    assert!(c.len() as i64 == n);
    let i = (any_u8() & 3) as i64;
    assume(i < n);
    assert!(same(&c[i as usize], nth(f, i)));
}
fn dn(t: DateTime<Utc>) -> i64 {
    t.num_days_from_ce() as i64
}
fn days_after(f: DateTime<Utc>, k: i64) -> NaiveDate {
    NaiveDate::from_num_days_from_ce_opt((dn(f) + k) as i32).unwrap()
}
fn hour_key(t: DateTime<Utc>) -> i64 {
    dn(t) * 24 + t.hour() as i64
}
fn hour_nth(f: DateTime<Utc>, k: i64) -> NaiveDateTime {
    let h = f.hour() as i64 + k;
    let (d, h) = if h >= 24 { (days_after(f, 1), h - 24) } else { (f.date_naive(), h) };
    d.and_hms_opt(h as u32, 0, 0).unwrap()
}
fn day_nth(f: DateTime<Utc>, k: i64) -> NaiveDateTime {
    days_after(f, k).and_time(NaiveTime::MIN)
}
// day 1 of the common era was a Monday
fn week_key(t: DateTime<Utc>) -> i64 {
    (dn(t) - 1) / 7
}
fn week_nth(f: DateTime<Utc>, k: i64) -> NaiveDateTime {
    NaiveDate::from_num_days_from_ce_opt(((week_key(f) + k) * 7 + 1) as i32).unwrap().and_time(NaiveTime::MIN)
}
fn month_key(t: DateTime<Utc>) -> i64 {
    t.year() as i64 * 12 + t.month0() as i64
}
fn month_nth(f: DateTime<Utc>, k: i64) -> NaiveDateTime {
    let m = f.month0() as i64 + k;
    let (y, m) = if m >= 12 { (f.year() + 1, m - 12) } else { (f.year(), m) };
    NaiveDate::from_ymd_opt(y, m as u32 + 1, 1).unwrap().and_time(NaiveTime::MIN)
}
fn year_key(t: DateTime<Utc>) -> i64 {
    t.year() as i64
}
fn year_nth(f: DateTime<Utc>, k: i64) -> NaiveDateTime {
    NaiveDate::from_yo_opt(f.year() + k as i32, 1).unwrap().and_time(NaiveTime::MIN)
}

/// bound: every pair of date-times of the years 2023-2026 whose range spans at most 2 hours, in either order
/// encodes: common::query::time_columns, date_trunc, TimeIntervalUnit::relative_duration (hour)
/// stub: chronoutil/chrono mirrored with identity shortcuts (zero offset, zero months) and a loop-free formatter for %Y-%m-%dT%H:%M:%S
/// outside: longer ranges (the loop is the same per column)
/// tier: quick
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn t02_hour() {
    columns(near_dt, TimeIntervalUnit::Hour, 2, hour_key, hour_nth);
}

/// bound: every pair of date-times of the years 1970-2100, leap seconds included, whose range spans at most 3 hours, in either order
/// encodes: common::query::time_columns, date_trunc, TimeIntervalUnit::relative_duration (hour)
/// stub: chronoutil/chrono mirrored with identity shortcuts (zero offset, zero months) and a loop-free formatter for %Y-%m-%dT%H:%M:%S
/// outside: longer ranges (the loop is the same per column)
/// tier: thorough
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
pub fn t02_hour_deep() {
    columns(far_dt, TimeIntervalUnit::Hour, 3, hour_key, hour_nth);
}

/// bound: every pair of date-times of the years 2023-2026 whose range spans at most 2 days, in either order
/// encodes: common::query::time_columns, date_trunc, TimeIntervalUnit::relative_duration (day)
/// stub: chronoutil/chrono mirrored with identity shortcuts (zero offset, zero months) and a loop-free formatter for %Y-%m-%dT%H:%M:%S
/// outside: longer ranges (the loop is the same per column)
/// tier: quick
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn t02_day() {
    columns(near_dt, TimeIntervalUnit::Day, 2, dn, day_nth);
}

/// bound: every pair of date-times of the years 1970-2100, leap seconds included, whose range spans at most 3 days, in either order
/// encodes: common::query::time_columns, date_trunc, TimeIntervalUnit::relative_duration (day)
/// stub: chronoutil/chrono mirrored with identity shortcuts (zero offset, zero months) and a loop-free formatter for %Y-%m-%dT%H:%M:%S
/// outside: longer ranges (the loop is the same per column)
/// tier: thorough
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
pub fn t02_day_deep() {
    columns(far_dt, TimeIntervalUnit::Day, 3, dn, day_nth);
}

/// bound: every pair of date-times of the years 2023-2026 whose range spans at most 2 weeks, in either order
/// encodes: common::query::time_columns, date_trunc, TimeIntervalUnit::relative_duration (week)
/// stub: chronoutil/chrono mirrored with identity shortcuts (zero offset, zero months) and a loop-free formatter for %Y-%m-%dT%H:%M:%S
/// outside: longer ranges (the loop is the same per column)
/// tier: quick
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn t02_week() {
    columns(near_dt, TimeIntervalUnit::Week, 2, week_key, week_nth);
}

/// bound: every pair of date-times of the years 1970-2100, leap seconds included, whose range spans at most 3 weeks, in either order
/// encodes: common::query::time_columns, date_trunc, TimeIntervalUnit::relative_duration (week)
/// stub: chronoutil/chrono mirrored with identity shortcuts (zero offset, zero months) and a loop-free formatter for %Y-%m-%dT%H:%M:%S
/// outside: longer ranges (the loop is the same per column)
/// tier: thorough
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
pub fn t02_week_deep() {
    columns(far_dt, TimeIntervalUnit::Week, 3, week_key, week_nth);
}

/// bound: every pair of date-times of the years 2023-2026 whose range spans at most 3 months, in either order
/// encodes: common::query::time_columns, date_trunc, TimeIntervalUnit::relative_duration (month)
/// stub: chronoutil/chrono mirrored with identity shortcuts (zero offset, zero months) and a loop-free formatter for %Y-%m-%dT%H:%M:%S
/// outside: longer ranges (the loop is the same per column)
/// tier: quick
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
pub fn t02_month() {
    columns(near_dt, TimeIntervalUnit::Month, 3, month_key, month_nth);
}

/// bound: every pair of date-times of the years 1970-2100, leap seconds included, whose range spans at most 3 months, in either order
/// encodes: common::query::time_columns, date_trunc, TimeIntervalUnit::relative_duration (month)
/// stub: chronoutil/chrono mirrored with identity shortcuts (zero offset, zero months) and a loop-free formatter for %Y-%m-%dT%H:%M:%S
/// outside: longer ranges (the loop is the same per column)
/// tier: thorough
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
pub fn t02_month_deep() {
    columns(far_dt, TimeIntervalUnit::Month, 3, month_key, month_nth);
}

/// bound: every pair of date-times of the years 2023-2026 whose range spans at most 3 years, in either order
/// encodes: common::query::time_columns, date_trunc, TimeIntervalUnit::relative_duration (year)
/// stub: chronoutil/chrono mirrored with identity shortcuts (zero offset, zero months) and a loop-free formatter for %Y-%m-%dT%H:%M:%S
/// outside: longer ranges (the loop is the same per column)
/// tier: quick
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
pub fn t02_year() {
    columns(near_dt, TimeIntervalUnit::Year, 3, year_key, year_nth);
}

/// bound: every pair of date-times of the years 1970-2100, leap seconds included, whose range spans at most 3 years, in either order
/// encodes: common::query::time_columns, date_trunc, TimeIntervalUnit::relative_duration (year)
/// stub: chronoutil/chrono mirrored with identity shortcuts (zero offset, zero months) and a loop-free formatter for %Y-%m-%dT%H:%M:%S
/// outside: longer ranges (the loop is the same per column)
/// tier: thorough
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
pub fn t02_year_deep() {
    columns(far_dt, TimeIntervalUnit::Year, 3, year_key, year_nth);
}

fn any_unit_session() -> (TimeIntervalUnit, common::funnel::TimeIntervalUnitSession) {
    use common::funnel::TimeIntervalUnitSession as S;
    match below(5) {
        0 => (TimeIntervalUnit::Hour, S::Hour),
        1 => (TimeIntervalUnit::Day, S::Day),
        2 => (TimeIntervalUnit::Week, S::Week),
        3 => (TimeIntervalUnit::Month, S::Month),
        _ => (TimeIntervalUnit::Year, S::Year),
    }
}
fn dur(u: &TimeIntervalUnit, n: i64) -> i64 {
    // milliseconds; a month is 31 days and a year 12 such months, so a window always covers the calendar span
    const H: i64 = 3_600_000;
    n * match u {
        TimeIntervalUnit::Hour => H,
        TimeIntervalUnit::Day => 24 * H,
        TimeIntervalUnit::Week => 7 * 24 * H,
        TimeIntervalUnit::Month => 31 * 24 * H,
        TimeIntervalUnit::Year => 372 * 24 * H,
    }
}

/// bound: every n in -10000..=10000 of each unit
/// encodes: common::query::TimeIntervalUnit::duration, common::funnel::TimeIntervalUnitSession::duration
#[cfg_attr(kani, kani::proof)]
pub fn t04_duration() {
    let (u, s) = any_unit_session();
    let n = any_i16() as i64;
    assume(n >= -10_000 && n <= 10_000);
    let d = u.duration(n);
    witness!(n == -10_000 && u == TimeIntervalUnit::Year);
    assert!(d.num_milliseconds() == dur(&u, n));
    assert!(s.duration(n) == d);
}

/// bound: every n in -1000..=1000 of each unit
/// encodes: common::query::TimeIntervalUnit::relative_duration, common::funnel::TimeIntervalUnitSession::relative_duration, as_str
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
pub fn t04_relative() {
    use chronoutil::RelativeDuration as R;
    let (u, s) = any_unit_session();
    let n = any_i16();
    assume(n >= -1_000 && n <= 1_000);
    let r = u.relative_duration(n as i64);
    witness!(n == 1000 && u == TimeIntervalUnit::Year);
    let e = match u {
        TimeIntervalUnit::Hour => R::from(Duration::seconds(3600 * n as i64)),
        TimeIntervalUnit::Day => R::from(Duration::seconds(86400 * n as i64)),
        TimeIntervalUnit::Week => R::from(Duration::seconds(7 * 86400 * n as i64)),
        TimeIntervalUnit::Month => R::months(n as i32),
        TimeIntervalUnit::Year => R::months(12 * n as i32),
    };
    assert!(r == e);
    assert!(s.relative_duration(n as i64) == e);
    let name = match u {
        TimeIntervalUnit::Hour => "hour",
        TimeIntervalUnit::Day => "day",
        TimeIntervalUnit::Week => "week",
        TimeIntervalUnit::Month => "month",
        TimeIntervalUnit::Year => "year",
    };
    assert!(u.as_str() == name && s.as_str() == name);
}

/// bound: every window of 0..=10000 units; every other segment time
/// encodes: common::query::SegmentTime::try_window
#[cfg_attr(kani, kani::proof)]
pub fn t04_window() {
    let (u, _) = any_unit_session();
    let n = any_i16() as i64;
    assume(n >= 0 && n <= 10_000);
    let k = below(5);
    let t = DateTime::<Utc>::UNIX_EPOCH;
    let v = match k {
        0 => SegmentTime::Each { n, unit: u.clone() },
        1 => SegmentTime::Last { n, unit: u.clone() },
        2 => SegmentTime::AfterFirstUse { within: n, unit: u.clone() },
        3 => SegmentTime::From(t),
        _ => SegmentTime::Between { from: t, to: t },
    };
    let w = v.try_window();
    witness!(k == 0);
    witness!(k == 4);
    assert!(w == if k == 0 { Some(dur(&u, n)) } else { None });
}

/// bound: every pair of date-times of 1970-2100 and every current time of 1970-2100
/// encodes: common::query::QueryTime::range (between, from)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn t03_absolute() {
    let (a, b, cur) = (far_dt(), far_dt(), far_dt());
    witness!(a < b && b < cur);
    assert!(QueryTime::Between { from: a, to: b }.range(cur) == (a, b));
    assert!(QueryTime::From(a).range(cur) == (a, cur));
}

/// bound: every current time of 2023-2026, 0..=31 hours back
/// encodes: common::query::QueryTime::range (last n hours)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn t03_last_hours() {
    let cur = near_dt();
    let n = (any_u8() & 31) as i64;
    let (f, t) = QueryTime::Last { last: n, unit: TimeIntervalUnit::Hour }.range(cur);
    witness!(n == 31 && f.year() != t.year());
    assert!(t == cur);
    assert!(f.nanosecond() == cur.nanosecond());
    assert!(f.minute() == cur.minute() && f.second() == cur.second());
    let h = cur.hour() as i64 - n;
    let (d, h) = if h < -24 { (2, h + 48) } else if h < 0 { (1, h + 24) } else { (0, h) };
    assert!(f.hour() as i64 == h && dn(f) == dn(cur) - d);
}

/// bound: every current time of 2023-2026, 0..=63 days back
/// encodes: common::query::QueryTime::range (last n days)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn t03_last_days() {
    let cur = near_dt();
    let n = (any_u8() & 63) as i64;
    let (f, t) = QueryTime::Last { last: n, unit: TimeIntervalUnit::Day }.range(cur);
    witness!(n == 63 && f.year() != t.year());
    assert!(t == cur);
    assert!(f.nanosecond() == cur.nanosecond());
    assert!(f.time() == cur.time());
    assert!(dn(f) == dn(cur) - n);
}

/// bound: every current time of 2023-2026, 0..=15 weeks back
/// encodes: common::query::QueryTime::range (last n weeks)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn t03_last_weeks() {
    let cur = near_dt();
    let n = (any_u8() & 15) as i64;
    let (f, t) = QueryTime::Last { last: n, unit: TimeIntervalUnit::Week }.range(cur);
    witness!(n == 15 && f.year() != t.year());
    assert!(t == cur);
    assert!(f.nanosecond() == cur.nanosecond());
    assert!(f.time() == cur.time());
    assert!(dn(f) == dn(cur) - 7 * n);
}

/// bound: every current time of 1990-2100, 0..=120 months or 0..=10 years back
/// encodes: common::query::QueryTime::range (last n months, years)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn t03_last_calendar() {
    let cur = any_dt(1990, 2100);
    let n = any_u8() as i64;
    let months = any_bool();
    assume(n <= if months { 120 } else { 10 });
    let u = if months { TimeIntervalUnit::Month } else { TimeIntervalUnit::Year };
    let (f, t) = QueryTime::Last { last: n, unit: u }.range(cur);
    witness!(months && f.day() < t.day());
    witness!(!months && f.day() < t.day());
    assert!(t == cur);
    assert!(f.time() == cur.time());
    assert!(month_key(t) - month_key(f) == if months { n } else { 12 * n });
    // same day of the month, or the last one of a shorter month
    assert!(f.day() == t.day() || (f.day() < t.day() && (f.date_naive() + Days::new(1)).day() == 1));
}
