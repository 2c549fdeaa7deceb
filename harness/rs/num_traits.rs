// What generated code uses of num-traits 0.2.
pub trait FromPrimitive: Sized {
    fn from_i64(n: i64) -> Option<Self>;
    fn from_u64(n: u64) -> Option<Self>;
}
pub trait ToPrimitive {
    fn to_i64(&self) -> Option<i64>;
    fn to_u64(&self) -> Option<u64>;
}
impl ToPrimitive for i64 {
    fn to_i64(&self) -> Option<i64> { Some(*self) }
    fn to_u64(&self) -> Option<u64> { if *self < 0 { None } else { Some(*self as u64) } }
}
