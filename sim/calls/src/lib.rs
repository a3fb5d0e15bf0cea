//! The calls of the simulated applications. A crate of its own, built with
//! the same callbacks as the library, so that library code the compiler
//! inlines into its callers is simulated step by step too.
#[inline(never)]
pub fn config(k: u64, pwd: Vec<u8>, salt: Vec<u8>, t: u64, r: u64, c: u64) -> Vec<u8> {
    lyra2::lyra2::lyra2(k, pwd, salt, t, r, c)
}
#[inline(never)]
pub fn sum(f: u8, input: Vec<u8>) -> Vec<u8> {
    match f {
        0 => lyra2::lyra2::sum(input),
        1 => lyra2::lyra2z::sum(input),
        2 => lyra2::lyra2re::sum(input),
        3 => lyra2::lyra2rev2::sum(input),
        _ => lyra2::lyra2rev3::sum(input),
    }
}
