use common::scalar::ScalarValueRef as R;
use datafusion_common::ScalarValue as S;
use std::sync::Arc;
use vk::*;

fn bytes() -> Vec<u8> {
    let n = below(3);
    let mut v = Vec::with_capacity(2);
    if n > 0 {
        v.push(any_u8());
    }
    if n > 1 {
        v.push(any_u8());
    }
    v
}
fn text() -> String {
    let n = below(3);
    let mut s = String::with_capacity(2);
    if n > 0 {
        s.push((any_u8() & 0x7f) as char);
    }
    if n > 1 {
        s.push((any_u8() & 0x7f) as char);
    }
    s
}
fn tz() -> Option<Arc<str>> {
    if any_bool() { Some(Arc::from("UTC")) } else { None }
}

macro_rules! rt {
    ($n:expr, { $($k:pat => $r:ident($($f:ident : $g:expr),*);)* }) => {
        let k = below($n);
        witness!(k == $n - 1);
        match k {
            $($k => {
                $(let $f = $g;)*
                let s = S::$r($($f.clone()),*);
                let r = R::from(&s);
                std::mem::forget(s);
                let want = ($($f,)*);
                match &r {
                    R::$r($($f),*) => {
                        let got = ($($f,)*);
                        assert!(same!(want, got, $($f)*));
                    }
                    _ => assert!(false),
                }
                let b: S = r.into();
                match &b {
                    S::$r($($f),*) => {
                        let got = ($($f,)*);
                        assert!(same!(want, got, $($f)*));
                    }
                    _ => assert!(false),
                }
                std::mem::forget(b);
            })*
            #[allow(unreachable_patterns)]
            _ => {}
        }
    };
}
macro_rules! same {
    ($w:expr, $g:expr, $a:ident) => { $w.0 == *$g.0 };
    ($w:expr, $g:expr, $a:ident $b:ident) => { $w.0 == *$g.0 && $w.1 == *$g.1 };
    ($w:expr, $g:expr, $a:ident $b:ident $c:ident) => { $w.0 == *$g.0 && $w.1 == *$g.1 && $w.2 == *$g.2 };
}
fn f32v() -> Option<f32> {
    opt(|| f32::from_bits(any_u32()))
}
fn f64v() -> Option<f64> {
    opt(|| f64::from_bits(any_u64()))
}

/// bound: all values of these kinds, null included
/// encodes: common::scalar (ScalarValueRef <-> ScalarValue)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(1))]
pub fn v01_ints() {
    rt!(4, {
        0 => Int8(v: opt(any_i8));
        1 => Int16(v: opt(any_i16));
        2 => Int32(v: opt(any_i32));
        3 => Int64(v: opt(any_i64));
    });
}

/// bound: all values of these kinds, null included
/// encodes: common::scalar (ScalarValueRef <-> ScalarValue)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(1))]
pub fn v01_uints() {
    rt!(4, {
        0 => UInt8(v: opt(any_u8));
        1 => UInt16(v: opt(any_u16));
        2 => UInt32(v: opt(any_u32));
        3 => UInt64(v: opt(any_u64));
    });
}

/// bound: all values of these kinds, null included
/// encodes: common::scalar (ScalarValueRef <-> ScalarValue)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(1))]
pub fn v01_bool() {
    rt!(2, {
        0 => Boolean(v: opt(any_bool));
        1 => IntervalYearMonth(v: opt(any_i32));
    });
}

/// bound: all values of these kinds, null included
/// encodes: common::scalar (ScalarValueRef <-> ScalarValue)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(1))]
pub fn v01_times() {
    rt!(6, {
        0 => Date32(v: opt(any_i32));
        1 => Date64(v: opt(any_i64));
        2 => Time32Second(v: opt(any_i32));
        3 => Time32Millisecond(v: opt(any_i32));
        4 => Time64Microsecond(v: opt(any_i64));
        5 => Time64Nanosecond(v: opt(any_i64));
    });
}

/// bound: all values of these kinds, null included (time zone none or UTC)
/// encodes: common::scalar (ScalarValueRef <-> ScalarValue)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
pub fn v01_timestamps() {
    rt!(4, {
        0 => TimestampSecond(v: opt(any_i64), z: tz());
        1 => TimestampMillisecond(v: opt(any_i64), z: tz());
        2 => TimestampMicrosecond(v: opt(any_i64), z: tz());
        3 => TimestampNanosecond(v: opt(any_i64), z: tz());
    });
}

/// bound: all values of these kinds, null included (at most two ASCII characters)
/// encodes: common::scalar (ScalarValueRef <-> ScalarValue)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
pub fn v01_text() {
    rt!(2, {
        0 => Utf8(v: opt(text));
        1 => LargeUtf8(v: opt(text));
    });
}

/// bound: all values of these kinds, null included (at most two bytes)
/// encodes: common::scalar (ScalarValueRef <-> ScalarValue)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
pub fn v01_bytes() {
    rt!(3, {
        0 => Binary(v: opt(bytes));
        1 => LargeBinary(v: opt(bytes));
        2 => FixedSizeBinary(n: any_i32(), v: opt(bytes));
    });
}

/// Floating point values keep every bit, NaN payloads included; null stays null.
/// bound: all values
/// encodes: common::scalar (ScalarValueRef <-> ScalarValue)
#[cfg_attr(kani, kani::proof)]
pub fn v01_floats() {
    let (a, b) = (f32v(), f64v());
    witness!(a.is_none() && b.is_some());
    let x: S = R::from(&S::Float32(a)).into();
    let y: S = R::from(&S::Float64(b)).into();
    match x {
        S::Float32(v) => assert!(v.map(f32::to_bits) == a.map(f32::to_bits)),
        _ => assert!(false),
    }
    match y {
        S::Float64(v) => assert!(v.map(f64::to_bits) == b.map(f64::to_bits)),
        _ => assert!(false),
    }
    let z: S = R::from(&S::Null).into();
    match z {
        S::Null => {}
        _ => assert!(false),
    }
}
