use arrow_schema::DataType as A;
use arrow_schema::TimeUnit as U;
use common::types::*;
use vk::*;

const N: usize = 8;
fn scalar(k: usize) -> DType {
    match k {
        0 => DType::String,
        1 => DType::Int8,
        2 => DType::Int16,
        3 => DType::Int32,
        4 => DType::Int64,
        5 => DType::Decimal,
        6 => DType::Boolean,
        _ => DType::Timestamp,
    }
}
/// The statement for the k-th type, executed in an arm of its own so that the solver sees a known type per path.
macro_rules! each {
    ($k:expr, $f:expr) => {
        match $k {
            0 => $f(0),
            1 => $f(1),
            2 => $f(2),
            3 => $f(3),
            4 => $f(4),
            5 => $f(5),
            6 => $f(6),
            _ => $f(7),
        }
    };
}
fn is_arrow(a: &A, k: usize) -> bool {
    match (a, k) {
        (A::Utf8, 0) | (A::Int8, 1) | (A::Int16, 2) | (A::Int32, 3) | (A::Int64, 4) | (A::Boolean, 6) => true,
        (A::Decimal128(28, 16), 5) => true,
        (A::Timestamp(U::Millisecond, None), 7) => true,
        _ => false,
    }
}
fn is_dtype(d: &DType, k: usize) -> bool {
    match (d, k) {
        (DType::String, 0) | (DType::Int8, 1) | (DType::Int16, 2) | (DType::Int32, 3) | (DType::Int64, 4) => true,
        (DType::Decimal, 5) | (DType::Boolean, 6) | (DType::Timestamp, 7) => true,
        _ => false,
    }
}

/// Each property type is stored in the one column type of its values and read back as itself; a list is stored as its element type.
/// bound: every scalar property type and every list of one
/// encodes: common::types (DType <-> arrow DataType)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(1))]
#[cfg_attr(kani, kani::stub(alloc::fmt::format, crate::types::fmt_stub))]
pub fn v02_arrow() {
    let k = below(N);
    let list = any_bool();
    witness!(list && k == 7);
    witness!(!list && k == 5);
    if list {
        each!(k, |k| {
            let a: A = DType::List(Box::new(scalar(k))).into();
            assert!(is_arrow(&a, k));
            std::mem::forget(a);
        });
    } else {
        each!(k, |k| {
            let a: A = scalar(k).into();
            assert!(is_arrow(&a, k));
            let d: DType = a.into();
            assert!(is_dtype(&d, k));
            std::mem::forget(d);
        });
    }
}

/// Two different property types never share a column name tag.
/// bound: every pair of scalar types and lists of scalars
/// encodes: common::types::DType::short_name
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
#[cfg_attr(kani, kani::stub(alloc::fmt::format, crate::types::fmt_stub))]
pub fn v02_short_name() {
    let (a, b) = (below(N), below(N));
    assume(a != b);
    let (x, y) = (scalar(a).short_name(), scalar(b).short_name());
    witness!(a == 7 && b == 0);
    assert!(x.len() > 0 && x != y);
    // the tag of a list cannot be taken for the tag of a scalar: scalars have no "l_" prefix
    let z = x.as_bytes();
    assert!(!(z.len() >= 2 && z[0] == b'l' && z[1] == b'_'));
}
/// Formatting is outside this harness.
pub fn fmt_stub(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}

/// bound: all values
/// encodes: common::types constants, common::arrow::DecimalBuilder
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(40))]
pub fn v02_decimal() {
    // the multiplier used to move integers into decimals matches the scale the columns are stored with
    let mut m: i128 = 1;
    let mut i = 0;
    while i < DECIMAL_SCALE {
        m *= 10;
        i += 1;
    }
    witness!(i > 0);
    assert!(m == DECIMAL_MULTIPLIER);
    assert!(DECIMAL_SCALE as i32 <= DECIMAL_PRECISION as i32);
    assert!(DECIMAL_PRECISION <= arrow_schema::DECIMAL128_MAX_PRECISION && DECIMAL_SCALE <= arrow_schema::DECIMAL128_MAX_SCALE);
}

/// bound: all values of u64 (unset / null / set) and every conversion outcome
/// encodes: common::types::OptionalProperty (insert, is_none, into, try_into, map)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn u01_adapters() {
    let v = any_i64();
    let set = any_bool();
    let mk = || if set { OptionalProperty::Some(v) } else { OptionalProperty::None };
    witness!(set);
    witness!(!set);
    assert!(mk().is_none() == !set);
    let w: OptionalProperty<i128> = mk().into();
    assert!(w == if set { OptionalProperty::Some(v as i128) } else { OptionalProperty::None });
    let t: Result<OptionalProperty<u32>, _> = mk().try_into();
    match t {
        Ok(OptionalProperty::None) => assert!(!set),
        Ok(OptionalProperty::Some(x)) => assert!(set && x as i64 == v),
        Err(_) => assert!(set && (v < 0 || v > u32::MAX as i64)),
    }
    let mut calls = 0;
    let m = mk().map(|x| {
        calls += 1;
        x ^ 5
    });
    assert!(calls == set as i32);
    assert!(m == if set { OptionalProperty::Some(v ^ 5) } else { OptionalProperty::None });
    let mut i = mk();
    let n = any_i64();
    i.insert(n);
    assert!(i == OptionalProperty::Some(n) && !i.is_none());
    assert!(OptionalProperty::<i64>::default().is_none());
}

mod mock {
    //! A deserializer and serializer that carry one optional integer and count what is asked of them.
    use serde::de::*;
    use serde::ser::*;
    #[derive(Debug)]
    pub struct E;
    impl std::fmt::Display for E {
        fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
            Ok(())
        }
    }
    impl std::error::Error for E {}
    impl serde::de::Error for E {
        fn custom<T: std::fmt::Display>(_: T) -> Self {
            E
        }
        fn invalid_type(_: Unexpected, _: &dyn Expected) -> Self {
            E
        }
    }
    impl serde::ser::Error for E {
        fn custom<T: std::fmt::Display>(_: T) -> Self {
            E
        }
    }
    pub struct De(pub Option<i64>);
    impl<'de> Deserializer<'de> for De {
        type Error = E;
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
            match self.0 {
                Some(x) => v.visit_i64(x),
                None => v.visit_unit(),
            }
        }
        fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
            match self.0 {
                Some(_) => v.visit_some(self),
                None => v.visit_none(),
            }
        }
        serde::forward_to_deserialize_any! {
            bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit
            unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
        }
    }
    pub struct Ser;
    type R = Result<Option<i64>, E>;
    type Im = Impossible<Option<i64>, E>;
    macro_rules! no { ($($f:ident $t:ty),*) => {$(fn $f(self, _: $t) -> R { Err(E) })*} }
    impl Serializer for Ser {
        type Ok = Option<i64>;
        type Error = E;
        type SerializeSeq = Im;
        type SerializeTuple = Im;
        type SerializeTupleStruct = Im;
        type SerializeTupleVariant = Im;
        type SerializeMap = Im;
        type SerializeStruct = Im;
        type SerializeStructVariant = Im;
        no!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_u8 u8, serialize_u16 u16,
            serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str,
            serialize_bytes &[u8], serialize_unit_struct &'static str);
        fn serialize_i64(self, v: i64) -> R {
            Ok(Some(v))
        }
        fn serialize_none(self) -> R {
            Ok(None)
        }
        fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R {
            v.serialize(self)
        }
        fn serialize_unit(self) -> R {
            Ok(None)
        }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R {
            Err(E)
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> R {
            Err(E)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R {
            Err(E)
        }
        fn serialize_seq(self, _: Option<usize>) -> Result<Im, E> {
            Err(E)
        }
        fn serialize_tuple(self, _: usize) -> Result<Im, E> {
            Err(E)
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Im, E> {
            Err(E)
        }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Im, E> {
            Err(E)
        }
        fn serialize_map(self, _: Option<usize>) -> Result<Im, E> {
            Err(E)
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Im, E> {
            Err(E)
        }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Im, E> {
            Err(E)
        }
    }
}

/// A present field is always "set", also when it is null; null for a field that cannot be null is refused.
/// bound: null and every i64
/// encodes: common::types::OptionalProperty (Deserialize, Serialize)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn u01_serde() {
    use serde::Deserialize;
    use serde::Serialize;
    let v = opt(any_i64);
    let r = OptionalProperty::<Option<i64>>::deserialize(mock::De(v)).unwrap();
    witness!(v.is_none());
    witness!(v == Some(-1));
    assert!(r == OptionalProperty::Some(v));
    assert!(r.serialize(mock::Ser).unwrap() == v);
    let p = OptionalProperty::<i64>::deserialize(mock::De(v));
    match (v, p) {
        (None, p) => assert!(p.is_err()),
        (Some(x), Ok(p)) => {
            assert!(p == OptionalProperty::Some(x));
            assert!(p.serialize(mock::Ser).unwrap() == Some(x));
        }
        _ => assert!(false),
    }
}
