// The driver of generated code: reads states and calls as harness/c/rt.c
// does, and answers alike.  What precedes this is of the configuration:
// TABLES, WRITE, call(), role(), currole().
use rusqlite::types::Value;
use std::io::{BufRead, Write as IoWrite};

pub struct Arg(Value);
#[allow(dead_code)]
impl Arg {
    fn parse(s: &str) -> Arg {
        let r = &s[1..];
        Arg(match &s[..1] {
            "n" => Value::Null,
            "i" => Value::Integer(r.parse().unwrap()),
            "r" => Value::Real(f64::from_bits(r.parse().unwrap())),
            "b" => Value::Blob(unhex(r)),
            "s" => Value::Text(String::from_utf8(unhex(r)).unwrap()),
            _ => panic!("argument"),
        })
    }
    fn i(&self) -> i64 { if let Value::Integer(x) = &self.0 { *x } else { panic!("type") } }
    fn r(&self) -> f64 { if let Value::Real(x) = &self.0 { *x } else { panic!("type") } }
    fn s(&self) -> &String { if let Value::Text(x) = &self.0 { x } else { panic!("type") } }
    fn b(&self) -> &Vec<u8> { if let Value::Blob(x) = &self.0 { x } else { panic!("type") } }
    fn e<T: num_traits::FromPrimitive>(&self) -> T { T::from_i64(self.i()).unwrap() }
    fn oi(&self) -> Option<i64> { if self.nul() { None } else { Some(self.i()) } }
    fn or(&self) -> Option<f64> { if self.nul() { None } else { Some(self.r()) } }
    fn os(&self) -> Option<&String> { if self.nul() { None } else { Some(self.s()) } }
    fn ob(&self) -> Option<&Vec<u8>> { if self.nul() { None } else { Some(self.b()) } }
    fn oe<T: num_traits::FromPrimitive>(&self) -> Option<T> { if self.nul() { None } else { Some(self.e()) } }
    fn nul(&self) -> bool { if let Value::Null = self.0 { true } else { false } }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn oi(o: &mut String, i: i64) { o.push_str(&i.to_string()); }
pub fn os(o: &mut String, s: &str) { o.push_str(&format!("{{\"s\":\"{}\"}}", hex(s.as_bytes()))); }
pub fn ob(o: &mut String, s: &[u8]) { o.push_str(&format!("{{\"b\":\"{}\"}}", hex(s))); }
pub fn or(o: &mut String, r: f64) {
    let b = r.to_bits();
    let e = ((b >> 52) & 0x7ff) as i64;
    let m = b & ((1 << 52) - 1);
    let t = if e == 0x7ff { if m != 0 { "nan".to_string() } else { "inf".to_string() } }
        else if e == 0 { format!("0x0.{:013x}p-1022", m) } else { format!("0x1.{:013x}p{}", m, e - 1023) };
    o.push_str(&format!("{{\"r\":\"{}{}\"}}", if b >> 63 != 0 { "-" } else { "" }, t));
}
fn oval(o: &mut String, v: &Value) {
    match v {
        Value::Null => o.push_str("null"),
        Value::Integer(i) => oi(o, *i),
        Value::Real(r) => or(o, *r),
        Value::Text(t) => os(o, t),
        Value::Blob(b) => ob(o, b),
    }
}

struct Call { f: usize, roles: Vec<usize>, args: Vec<Arg> }
const DB: &str = "file:ort?mode=memory&cache=shared";

fn load(c: &rusqlite::Connection, rows: &Vec<(usize, Vec<Value>)>) {
    c.execute_batch("PRAGMA foreign_keys=OFF; BEGIN").unwrap();
    for t in TABLES {
        c.execute_batch(&format!("DELETE FROM {}", t)).unwrap();
    }
    for (t, v) in rows {
        let q = vec!["?"; v.len()].join(",");
        c.execute(&format!("INSERT INTO {} VALUES ({})", TABLES[*t], q), &v[..]).unwrap();
    }
    c.execute_batch("COMMIT; PRAGMA foreign_keys=ON").unwrap();
}

fn dump(c: &rusqlite::Connection, o: &mut String) {
    o.push_str(",\"db\":{");
    for (k, t) in TABLES.iter().enumerate() {
        o.push_str(&format!("{}\"{}\":[", if k > 0 { "," } else { "" }, t));
        let mut st = c.prepare(&format!("SELECT * FROM {}", t)).unwrap();
        let mut rows = st.query([]).unwrap();
        let mut n = 0;
        while let Some(row) = rows.next().unwrap() {
            o.push_str(if n > 0 { ",[" } else { "[" });
            n += 1;
            for j in 0..row.columns() {
                if j > 0 {
                    o.push(',');
                }
                let v: Value = row.get(j).unwrap();
                oval(o, &v);
            }
            o.push(']');
        }
        o.push(']');
    }
    o.push('}');
}

fn run(c: &rusqlite::Connection, k: &Call, js: bool, late: bool, out: &mut String) -> bool {
    let mut o = String::new();
    let roled = std::cell::Cell::new(k.roles.is_empty());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let db = orb::ort::Ortdb::new_with_args(DB, orb::ort::Ortargs { bcrypt_cost: 10 });
        let mut ctx = db.connect()?;
        for r in &k.roles {
            role(&mut ctx, *r);
        }
        if !k.roles.is_empty() {
            o.push_str(&format!(",\"role\":{}", currole(&ctx)));
        }
        roled.set(true);
        if k.f != usize::MAX {
            call(&mut ctx, k.f, &k.args, js, late, &mut o)?;
        }
        Ok::<(), rusqlite::Error>(())
    }));
    out.push_str("{\"z\":0");
    match r {
        Ok(Ok(())) => out.push_str(&o),
        Ok(Err(e)) => out.push_str(&format!(",\"error\":\"{}\"", hex(format!("{:?}", e).as_bytes()))),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { String::new() };
            out.push_str(&format!(",\"{}\":\"{}\"", if roled.get() { "abort" } else { "inrole" }, hex(m.as_bytes())));
        }
    }
    let w = k.f != usize::MAX && WRITE[k.f];
    if w {
        dump(c, out);
    }
    out.push_str("}\n");
    w
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let c = rusqlite::Connection::open(DB).unwrap();
    let (mut rows, mut calls, mut js, mut late, mut dirty) = (Vec::new(), Vec::new(), false, false, true);
    let stdout = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let rest = if l.len() > 2 { &l[2..] } else { "" };
        let mut out = String::new();
        match &l[..1] {
            "X" => {
                let sql = String::from_utf8(unhex(rest)).unwrap();
                match c.execute_batch(&sql) {
                    Ok(_) => out.push_str("ok\n"),
                    Err(e) => out.push_str(&format!("{:?}\n", e).replace("\n", " ")),
                }
            }
            "Z" => { rows.clear(); dirty = true; }
            "K" => calls.clear(),
            "L" => late = rest == "1",
            "J" => js = rest == "1",
            "T" => {
                let mut it = rest.split(' ').filter(|x| !x.is_empty());
                let t: usize = it.next().unwrap().parse().unwrap();
                rows.push((t, it.map(|x| Arg::parse(x).0).collect::<Vec<Value>>()));
                dirty = true;
            }
            "C" => {
                let mut it = rest.split(' ').filter(|x| !x.is_empty());
                let f: u64 = it.next().unwrap().parse().unwrap();
                let r = it.next().unwrap();
                calls.push(Call {
                    f: f as usize,
                    roles: if r == "-" { vec![] } else { r.split(',').map(|x| x.parse().unwrap()).collect() },
                    args: it.map(Arg::parse).collect(),
                });
            }
            "G" => {
                for k in &calls {
                    if dirty {
                        load(&c, &rows);
                    }
                    dirty = run(&c, k, js, late, &mut out);
                }
                out.push_str(".\n");
            }
            _ => {}
        }
        if !out.is_empty() {
            let mut s = stdout.lock();
            s.write_all(out.as_bytes()).unwrap();
            s.flush().unwrap();
        }
    }
}
