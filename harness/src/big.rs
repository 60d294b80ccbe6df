//! Exact arithmetic helpers for oracles.
use cosmwasm_std::{Uint256, Uint512};

pub fn u512(x: u128) -> Uint512 {
    Uint512::from(x)
}
pub fn u256(x: u128) -> Uint256 {
    Uint256::from(x)
}
/// floor(a*b/c)
pub fn mul_div(a: u128, b: u128, c: u128) -> Uint512 {
    u512(a) * u512(b) / u512(c)
}
pub fn mul_div_u128(a: u128, b: u128, c: u128) -> u128 {
    let v = mul_div(a, b, c);
    v.to_string().parse().expect("fits")
}
