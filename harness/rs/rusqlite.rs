// What generated code uses of rusqlite 0.25, over the system's libsqlite3.
pub use libsqlite3_sys as ffi;
use std::ffi::{CStr, CString};
use std::marker::PhantomData;
use std::os::raw::c_int;

#[derive(Debug)]
#[non_exhaustive]
pub enum Error {
    SqliteFailure(ffi::Error, Option<String>),
    FromSqlConversionFailure(usize, types::Type, Box<dyn std::error::Error + Send + Sync + 'static>),
    IntegralValueOutOfRange(usize, i64),
    Utf8Error(std::str::Utf8Error),
    NulError(std::ffi::NulError),
    ExecuteReturnedResults,
    QueryReturnedNoRows,
    InvalidColumnIndex(usize),
    InvalidColumnType(usize, String, types::Type),
    StatementChangedRows(usize),
    InvalidQuery,
    MultipleStatement,
    InvalidParameterCount(usize, usize),
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

pub mod types {
    #[derive(Copy, Clone, Debug, PartialEq)]
    pub enum Type { Null, Integer, Real, Text, Blob }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Value { Null, Integer(i64), Real(f64), Text(String), Blob(Vec<u8>) }
    #[derive(Copy, Clone, Debug, PartialEq)]
    pub enum ValueRef<'a> { Null, Integer(i64), Real(f64), Text(&'a [u8]), Blob(&'a [u8]) }
    #[derive(Debug)]
    pub enum FromSqlError { InvalidType, OutOfRange(i64), Other }
    pub trait ToSql { fn to_sql(&self) -> crate::Result<Value>; }
    pub trait FromSql: Sized { fn column_result(v: ValueRef<'_>) -> std::result::Result<Self, FromSqlError>; }
    macro_rules! ints { ($($t:ty),*) => { $(
        impl ToSql for $t { fn to_sql(&self) -> crate::Result<Value> { Ok(Value::Integer(*self as i64)) } }
        impl FromSql for $t { fn column_result(v: ValueRef<'_>) -> std::result::Result<Self, FromSqlError> {
            match v { ValueRef::Integer(i) => <$t as std::convert::TryFrom<i64>>::try_from(i).map_err(|_| FromSqlError::OutOfRange(i)), _ => Err(FromSqlError::InvalidType) } } }
    )* } }
    ints!(i8, i16, i32, i64, isize, u8, u16, u32);
    impl ToSql for bool { fn to_sql(&self) -> crate::Result<Value> { Ok(Value::Integer(*self as i64)) } }
    impl FromSql for bool { fn column_result(v: ValueRef<'_>) -> std::result::Result<Self, FromSqlError> { i64::column_result(v).map(|i| i != 0) } }
    impl ToSql for f64 { fn to_sql(&self) -> crate::Result<Value> { Ok(Value::Real(*self)) } }
    impl ToSql for str { fn to_sql(&self) -> crate::Result<Value> { Ok(Value::Text(self.to_string())) } }
    impl ToSql for String { fn to_sql(&self) -> crate::Result<Value> { Ok(Value::Text(self.clone())) } }
    impl ToSql for [u8] { fn to_sql(&self) -> crate::Result<Value> { Ok(Value::Blob(self.to_vec())) } }
    impl ToSql for Vec<u8> { fn to_sql(&self) -> crate::Result<Value> { Ok(Value::Blob(self.clone())) } }
    impl<T: ToSql> ToSql for Option<T> {
        fn to_sql(&self) -> crate::Result<Value> { match self { None => Ok(Value::Null), Some(x) => x.to_sql() } }
    }
    impl<T: ToSql + ?Sized> ToSql for &'_ T { fn to_sql(&self) -> crate::Result<Value> { (**self).to_sql() } }
    impl<T: ToSql + ?Sized> ToSql for Box<T> { fn to_sql(&self) -> crate::Result<Value> { (**self).to_sql() } }
    impl FromSql for f64 { fn column_result(v: ValueRef<'_>) -> std::result::Result<Self, FromSqlError> {
        match v { ValueRef::Integer(i) => Ok(i as f64), ValueRef::Real(r) => Ok(r), _ => Err(FromSqlError::InvalidType) } } }
    impl FromSql for String { fn column_result(v: ValueRef<'_>) -> std::result::Result<Self, FromSqlError> {
        match v { ValueRef::Text(t) => String::from_utf8(t.to_vec()).map_err(|_| FromSqlError::Other), _ => Err(FromSqlError::InvalidType) } } }
    impl FromSql for Vec<u8> { fn column_result(v: ValueRef<'_>) -> std::result::Result<Self, FromSqlError> {
        match v { ValueRef::Blob(b) => Ok(b.to_vec()), _ => Err(FromSqlError::InvalidType) } } }
    impl FromSql for Value { fn column_result(v: ValueRef<'_>) -> std::result::Result<Self, FromSqlError> {
        Ok(match v { ValueRef::Null => Value::Null, ValueRef::Integer(i) => Value::Integer(i), ValueRef::Real(r) => Value::Real(r),
                     ValueRef::Text(t) => Value::Text(String::from_utf8_lossy(t).into_owned()), ValueRef::Blob(b) => Value::Blob(b.to_vec()) }) } }
    impl ToSql for Value { fn to_sql(&self) -> crate::Result<Value> { Ok(self.clone()) } }
    impl<T: FromSql> FromSql for Option<T> { fn column_result(v: ValueRef<'_>) -> std::result::Result<Self, FromSqlError> {
        match v { ValueRef::Null => Ok(None), _ => T::column_result(v).map(Some) } } }
}
pub use types::{FromSql, ToSql};
use types::{FromSqlError, Type, Value, ValueRef};

#[macro_export]
macro_rules! params {
    () => { &[] as &[&dyn $crate::ToSql] };
    ($($param:expr),+ $(,)?) => { &[$(&$param as &dyn $crate::ToSql),+] as &[&dyn $crate::ToSql] };
}
pub trait Params { fn values(&self) -> Result<Vec<Value>>; }
impl Params for [&'_ dyn ToSql; 0] { fn values(&self) -> Result<Vec<Value>> { Ok(vec![]) } }
impl Params for &[Value] { fn values(&self) -> Result<Vec<Value>> { Ok(self.to_vec()) } }
impl Params for &[&'_ dyn ToSql] { fn values(&self) -> Result<Vec<Value>> { self.iter().map(|x| x.to_sql()).collect() } }

pub struct Connection { db: *mut ffi::sqlite3 }
fn fail(db: *mut ffi::sqlite3) -> Error {
    unsafe {
        let m = CStr::from_ptr(ffi::sqlite3_errmsg(db)).to_string_lossy().into_owned();
        Error::SqliteFailure(ffi::Error::new(ffi::sqlite3_extended_errcode(db)), Some(m))
    }
}
impl Connection {
    pub fn open<P: AsRef<std::path::Path>>(path: P) -> Result<Connection> {
        let f = CString::new(path.as_ref().to_str().unwrap()).map_err(Error::NulError)?;
        let mut db = std::ptr::null_mut();
        unsafe {
            // SQLITE_OPEN_READWRITE | CREATE | URI | NOMUTEX
            if ffi::sqlite3_open_v2(f.as_ptr(), &mut db, 2 | 4 | 0x40 | 0x8000, std::ptr::null()) != 0 {
                return Err(fail(db));
            }
            ffi::sqlite3_extended_result_codes(db, 1);
            ffi::sqlite3_busy_timeout(db, 5000);
        }
        Ok(Connection { db })
    }
    pub fn prepare(&self, sql: &str) -> Result<Statement<'_>> {
        let s = CString::new(sql).map_err(Error::NulError)?;
        let mut st = std::ptr::null_mut();
        let mut tail = std::ptr::null();
        unsafe {
            if ffi::sqlite3_prepare_v2(self.db, s.as_ptr(), -1, &mut st, &mut tail) != 0 {
                return Err(fail(self.db));
            }
        }
        Ok(Statement { conn: self, st })
    }
    pub fn execute_batch(&self, sql: &str) -> Result<()> {
        let s = CString::new(sql).map_err(Error::NulError)?;
        if unsafe { ffi::sqlite3_exec(self.db, s.as_ptr(), 0, 0, 0) } != 0 { Err(fail(self.db)) } else { Ok(()) }
    }
    pub fn execute<P: Params>(&self, sql: &str, p: P) -> Result<usize> { self.prepare(sql)?.execute(p) }
}
impl Drop for Connection { fn drop(&mut self) { unsafe { ffi::sqlite3_close(self.db); } } }
pub struct Statement<'conn> { conn: &'conn Connection, st: *mut ffi::sqlite3_stmt }
impl Drop for Statement<'_> { fn drop(&mut self) { unsafe { ffi::sqlite3_finalize(self.st); } } }
impl Statement<'_> {
    fn bind<P: Params>(&mut self, p: P) -> Result<()> {
        let v = p.values()?;
        let n = unsafe { ffi::sqlite3_bind_parameter_count(self.st) } as usize;
        if v.len() != n {
            return Err(Error::InvalidParameterCount(v.len(), n));
        }
        for (i, x) in v.iter().enumerate() {
            let i = (i + 1) as c_int;
            let rc = unsafe { match x {
                Value::Null => ffi::sqlite3_bind_null(self.st, i),
                Value::Integer(k) => ffi::sqlite3_bind_int64(self.st, i, *k),
                Value::Real(k) => ffi::sqlite3_bind_double(self.st, i, *k),
                Value::Text(k) => ffi::sqlite3_bind_text(self.st, i, k.as_ptr() as *const _, k.len() as c_int, -1),
                Value::Blob(k) if k.is_empty() => ffi::sqlite3_bind_zeroblob(self.st, i, 0),
                Value::Blob(k) => ffi::sqlite3_bind_blob(self.st, i, k.as_ptr() as *const _, k.len() as c_int, -1),
            } };
            if rc != 0 {
                return Err(fail(self.conn.db));
            }
        }
        Ok(())
    }
    pub fn execute<P: Params>(&mut self, p: P) -> Result<usize> {
        self.bind(p)?;
        unsafe {
            match ffi::sqlite3_step(self.st) {
                101 => { ffi::sqlite3_reset(self.st); Ok(ffi::sqlite3_changes(self.conn.db) as usize) }
                100 => { ffi::sqlite3_reset(self.st); Err(Error::ExecuteReturnedResults) }
                _ => { let e = fail(self.conn.db); ffi::sqlite3_reset(self.st); Err(e) }
            }
        }
    }
    pub fn insert<P: Params>(&mut self, p: P) -> Result<i64> {
        match self.execute(p)? {
            1 => Ok(unsafe { ffi::sqlite3_last_insert_rowid(self.conn.db) }),
            n => Err(Error::StatementChangedRows(n)),
        }
    }
    pub fn query<P: Params>(&mut self, p: P) -> Result<Rows<'_>> {
        self.bind(p)?;
        Ok(Rows { row: Row { st: self.st, db: self.conn.db, _p: PhantomData }, done: false })
    }
}
pub struct Rows<'stmt> { row: Row<'stmt>, done: bool }
impl<'stmt> Rows<'stmt> {
    pub fn next(&mut self) -> Result<Option<&Row<'stmt>>> {
        if self.done {
            return Ok(None);
        }
        match unsafe { ffi::sqlite3_step(self.row.st) } {
            100 => Ok(Some(&self.row)),
            101 => { self.done = true; Ok(None) }
            _ => { self.done = true; Err(fail(self.row.db)) }
        }
    }
}
impl Drop for Rows<'_> { fn drop(&mut self) { unsafe { ffi::sqlite3_reset(self.row.st); } } }
pub struct Row<'stmt> { st: *mut ffi::sqlite3_stmt, db: *mut ffi::sqlite3, _p: PhantomData<&'stmt ()> }
pub trait RowIndex { fn idx(&self) -> usize; }
impl RowIndex for usize { fn idx(&self) -> usize { *self } }
impl<'stmt> Row<'stmt> {
    pub fn columns(&self) -> usize { unsafe { ffi::sqlite3_column_count(self.st) as usize } }
    pub fn get<I: RowIndex, T: FromSql>(&self, idx: I) -> Result<T> {
        let i = idx.idx();
        unsafe {
            if i >= ffi::sqlite3_column_count(self.st) as usize {
                return Err(Error::InvalidColumnIndex(i));
            }
            let k = i as c_int;
            let (ty, v) = match ffi::sqlite3_column_type(self.st, k) {
                1 => (Type::Integer, ValueRef::Integer(ffi::sqlite3_column_int64(self.st, k))),
                2 => (Type::Real, ValueRef::Real(ffi::sqlite3_column_double(self.st, k))),
                3 => { let p = ffi::sqlite3_column_text(self.st, k);
                       (Type::Text, ValueRef::Text(std::slice::from_raw_parts(p, ffi::sqlite3_column_bytes(self.st, k) as usize))) }
                4 => { let p = ffi::sqlite3_column_blob(self.st, k) as *const u8; let n = ffi::sqlite3_column_bytes(self.st, k) as usize;
                       (Type::Blob, ValueRef::Blob(if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) })) }
                _ => (Type::Null, ValueRef::Null),
            };
            T::column_result(v).map_err(|e| match e {
                FromSqlError::OutOfRange(x) => Error::IntegralValueOutOfRange(i, x),
                _ => Error::InvalidColumnType(i, String::new(), ty),
            })
        }
    }
}
