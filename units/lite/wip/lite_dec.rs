/// bound: all values of these kinds, null included
/// encodes: common::scalar (ScalarValueRef <-> ScalarValue)
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(1))]
pub fn v01_decimal() {
    let (p, sc) = (any_u8(), any_i8());
    witness!(p == 255 && sc == -128);
    // the null is told apart here, and not inside: the type's layout keeps its tag where the enum keeps its own
    if any_bool() {
        decimal(Some(any_i128()), p, sc);
    } else {
        decimal(None, p, sc);
    }
}
fn decimal(v: Option<i128>, p: u8, sc: i8) {
    let s = S::Decimal128(v, p, sc);
    let r = R::from(&s);
    std::mem::forget(s);
    match &r {
        R::Decimal128(a, b, c) => assert!(*a == v && *b == p && *c == sc),
        _ => assert!(false),
    }
    let b: S = r.into();
    match &b {
        S::Decimal128(a, b, c) => assert!(*a == v && *b == p && *c == sc),
        _ => assert!(false),
    }
    std::mem::forget(b);
}

