use axum::http::StatusCode;
use common::http::ApiError;
use std::collections::BTreeMap;
use vk::*;

fn text() -> String {
    let n = below(3);
    let mut s = String::with_capacity(2);
    if n > 0 {
        s.push((any_u8() & 0x7f) as char);
    }
    if n > 1 {
        s.push((any_u8() & 0x7f) as char);
    }
    s
}

/// bound: every constructor, every message of at most two ASCII characters
/// encodes: common::http::ApiError constructors
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
pub fn h01_constructors() {
    let m = text();
    let k = below(7);
    let e = match k {
        0 => ApiError::bad_request(m.as_str()),
        1 => ApiError::unauthorized(m.as_str()),
        2 => ApiError::forbidden(m.as_str()),
        3 => ApiError::not_found(m.as_str()),
        4 => ApiError::conflict(m.as_str()),
        5 => ApiError::internal(m.as_str()),
        _ => ApiError::unimplemented(m.as_str()),
    };
    let want = [400u16, 401, 403, 404, 409, 500, 501][k];
    witness!(k == 6);
    assert!(e.status.as_u16() == want);
    assert!(e.message.as_deref() == Some(m.as_str()));
    assert!(e.code.is_none() && e.fields.is_empty());
}

/// bound: every status from 100 to 999, every code, with and without a message
/// encodes: common::http::ApiError::with_message, new
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn h01_with_message() {
    let s = any_u16();
    assume(s >= 100 && s <= 999);
    let mut e = ApiError::new(StatusCode::from_u16(s).unwrap());
    assert!(e.status.as_u16() == s && e.code.is_none() && e.message.is_none() && e.fields.len() == 0);
    e.code = opt(any_u64);
    let code = e.code;
    if any_bool() {
        e.message = Some(String::from("x"));
    }
    witness!(e.message.is_some() && code.is_some());
    let e = e.with_message(String::from("yz"));
    assert!(e.status.as_u16() == s && e.code == code && e.message.as_deref() == Some("yz"));
    assert!(e.fields.len() == 0);
    std::mem::forget(e);
}

/// bound: every status from 100 to 999, every code, with and without a message, one field
/// encodes: common::http::ApiError::with_fields
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub fn h01_with_fields() {
    let s = any_u16();
    assume(s >= 100 && s <= 999);
    let mut e = ApiError::new(StatusCode::from_u16(s).unwrap());
    e.code = opt(any_u64);
    let code = e.code;
    let msg = any_bool();
    if msg {
        e.message = Some(String::from("x"));
    }
    witness!(msg && code.is_some());
    let mut fields = BTreeMap::new();
    fields.insert(String::from("f"), String::from("g"));
    let e = e.with_fields(fields);
    assert!(e.status.as_u16() == s && e.code == code);
    assert!(e.message.as_deref() == if msg { Some("x") } else { None });
    assert!(e.fields.len() == 1);
    std::mem::forget(e);
}

/// bound: every status from 100 to 999, every code, with and without a message, one inner message
/// encodes: common::http::ApiError::append_inner_message
/// stub: the text format! makes is arbitrary
/// outside: the text of the combined message
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
#[cfg_attr(kani, kani::stub(alloc::fmt::format, crate::types::fmt_stub))]
pub fn h01_append() {
    let s = any_u16();
    assume(s >= 100 && s <= 999);
    let mut e = ApiError::new(StatusCode::from_u16(s).unwrap());
    e.code = opt(any_u64);
    let code = e.code;
    let msg = any_bool();
    if msg {
        e.message = Some(String::from("x"));
    }
    witness!(msg && code.is_some());
    let e = e.append_inner_message(String::from("y"));
    assert!(e.status.as_u16() == s && e.code == code && e.fields.len() == 0);
    assert!(e.message.is_some() == msg);
    std::mem::forget(e);
}
