// What generated code uses of bcrypt 0.10; the hash is none, but has the form
// of one, differs from call to call, and holds what verify needs.
use std::sync::atomic::{AtomicUsize, Ordering};
pub const DEFAULT_COST: u32 = 12;
#[derive(Debug)]
pub enum BcryptError { CostNotAllowed(u32), InvalidHash(String) }
pub type BcryptResult<T> = Result<T, BcryptError>;
static SALT: AtomicUsize = AtomicUsize::new(1);
pub fn hash<P: AsRef<[u8]>>(password: P, cost: u32) -> BcryptResult<String> {
    if !(4..=31).contains(&cost) {
        return Err(BcryptError::CostNotAllowed(cost));
    }
    Ok(format!("$2b${:02}${}${}", cost, SALT.fetch_add(1, Ordering::SeqCst) % 10, String::from_utf8_lossy(password.as_ref())))
}
pub fn verify<P: AsRef<[u8]>>(password: P, hash: &str) -> BcryptResult<bool> {
    if hash.len() < 9 || !hash.starts_with("$2b$") || &hash[8..9] != "$" {
        return Err(BcryptError::InvalidHash(hash.to_string()));
    }
    Ok(hash[9..].as_bytes() == password.as_ref())
}
