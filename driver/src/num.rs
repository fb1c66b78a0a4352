//! Encoding of numbers.  A float is written as `[hi, lo]`, its 64 bits as two signed 32 bit integers
//! (the representation used by spec/Float64.tla) and read from a string ("1e-3", "inf", "nan").

use cmaes::DVector;
use serde_json::{json, Value};

pub fn enc(x: f64) -> Value {
    // One NaN only
    let bits = if x.is_nan() { 0x7ff8_0000_0000_0000u64 } else { x.to_bits() };
    json!([(bits >> 32) as u32 as i32, bits as u32 as i32])
}

pub fn enc_vec<'a, I: IntoIterator<Item = &'a f64>>(v: I) -> Value {
    Value::Array(v.into_iter().map(|x| enc(*x)).collect())
}

pub fn dec(v: &Value) -> f64 {
    match v {
        Value::String(s) => s.parse().unwrap_or_else(|_| panic!("bad float {:?}", s)),
        Value::Number(n) => n.as_f64().unwrap(),
        Value::Array(a) => {
            let hi = a[0].as_i64().unwrap() as i32 as u32 as u64;
            let lo = a[1].as_i64().unwrap() as i32 as u32 as u64;
            f64::from_bits(hi << 32 | lo)
        }
        _ => panic!("bad float {:?}", v),
    }
}

pub fn dec_vec(v: &Value) -> Vec<f64> {
    v.as_array().unwrap().iter().map(dec).collect()
}

pub fn dec_dvec(v: &Value) -> DVector<f64> {
    DVector::from(dec_vec(v))
}

/// Unsigned integers may be larger than a JSON number can hold exactly
pub fn dec_u64(v: &Value) -> u64 {
    match v {
        Value::String(s) => s.parse().unwrap(),
        _ => v.as_u64().unwrap(),
    }
}

/// A counter or limit, capped to what TLC's integers can represent
pub fn enc_int<T: TryInto<i64>>(x: T) -> Value {
    let x: i64 = x.try_into().unwrap_or(i64::MAX);
    json!(x.min(i32::MAX as i64))
}

pub fn enc_opt_int(x: Option<usize>) -> Value {
    match x {
        Some(x) => enc_int(x as u64 as i128 as u64),
        None => json!(-1),
    }
}
