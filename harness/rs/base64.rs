// What generated code uses of base64 0.13.
pub fn encode<T: AsRef<[u8]>>(input: T) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in input.as_ref().chunks(3) {
        let n = (c[0] as usize) << 16 | (*c.get(1).unwrap_or(&0) as usize) << 8 | *c.get(2).unwrap_or(&0) as usize;
        s.push(A[n >> 18] as char);
        s.push(A[n >> 12 & 63] as char);
        s.push(if c.len() > 1 { A[n >> 6 & 63] as char } else { '=' });
        s.push(if c.len() > 2 { A[n & 63] as char } else { '=' });
    }
    s
}
