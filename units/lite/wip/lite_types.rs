/// A fixed hash seed in place of the operating system's random one.
pub fn random_state() -> std::hash::RandomState {
    unsafe { std::mem::transmute([1u64, 2u64]) }
}

/// bound: every list column of a supported element type, every decimal precision and scale, every time unit
/// encodes: common::types (DType from arrow DataType)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(1))]
#[cfg_attr(kani, kani::stub(std::hash::RandomState::new, crate::types::random_state))]
#[cfg_attr(kani, kani::stub(alloc::fmt::format, crate::types::fmt_stub))]
pub fn v02_arrow_from() {
    let k = below(N);
    let list = any_bool();
    let (p, sc) = (any_u8(), any_i8());
    let u = match below(4) {
        0 => U::Second,
        1 => U::Millisecond,
        2 => U::Microsecond,
        _ => U::Nanosecond,
    };
    witness!(list && k == 7);
    each!(k, |k| {
        let e = if k == 5 {
            A::Decimal128(p, sc)
        } else if k == 7 {
            A::Timestamp(u.clone(), None)
        } else {
            arrow_of(k)
        };
        if list {
            let f = std::sync::Arc::new(Field::new_list_field(e, true));
            std::mem::forget(f.clone()); // keep it alive: dropping schemas is not the subject
            let d: DType = A::List(f).into();
            assert!(is_dtype(&d, k));
            std::mem::forget(d);
        } else {
            let d: DType = e.into();
            assert!(is_dtype(&d, k));
            std::mem::forget(d);
        }
    });
}

fn ok<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => {
            std::mem::forget(e);
            panic!("refused")
        }
    }
}

/// bound: every scalar property type and every list of one, every list column of a supported type
/// encodes: common::types (DType <-> arrow2 DataType)
/// stub: arrow2 is a stand-in with the same variant names (the crate is not available offline)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(1))]
#[cfg_attr(kani, kani::stub(alloc::fmt::format, crate::types::fmt_stub))]
pub fn v02_arrow2() {
    let k = below(N);
    let list = any_bool();
    witness!(list && k == 7);
    if list {
        each!(k, |k| {
            let a: A2 = ok(DType::List(Box::new(scalar(k))).try_into());
            assert!(is_arrow2(&a, k));
            let d: DType = ok(A2::List(Box::new(F2::new("", a, true))).try_into());
            assert!(is_dtype(&d, k));
            std::mem::forget(d);
        });
    } else {
        each!(k, |k| {
            let a: A2 = ok(scalar(k).try_into());
            assert!(is_arrow2(&a, k));
            let d: DType = ok(a.try_into());
            assert!(is_dtype(&d, k));
            std::mem::forget(d);
        });
    }
}

/// A list of lists is refused, not stored as something else.
/// bound: every list of a list of a scalar
/// encodes: common::types (DType -> arrow2 DataType)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(2))]
#[cfg_attr(kani, kani::stub(alloc::fmt::format, crate::types::fmt_stub))]
pub fn v02_arrow2_nested() {
    let k = below(N);
    witness!(k == 7);
    each!(k, |k| {
        let r: Result<A2, _> = DType::List(Box::new(DType::List(Box::new(scalar(k))))).try_into();
        assert!(r.is_err());
        std::mem::forget(r);
    });
}

