// What generated code uses of num-derive 0.3: for enumerations without data.
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};
fn parts(t: TokenStream) -> (String, Vec<String>) {
    let mut it = t.into_iter().peekable();
    let mut name = String::new();
    while let Some(x) = it.next() {
        if x.to_string() == "enum" {
            name = it.next().unwrap().to_string();
            break;
        }
    }
    let mut vs = vec![];
    let mut first = true;
    if let Some(TokenTree::Group(g)) = it.next() {
        let mut skip = 0;
        for x in g.stream() {
            match x {
                TokenTree::Punct(ref p) if p.as_char() == ',' => first = true,
                TokenTree::Punct(ref p) if p.as_char() == '#' => skip = 1,
                TokenTree::Group(_) if skip == 1 => skip = 0,
                x => if first { vs.push(x.to_string()); first = false },
            }
        }
    }
    (name, vs)
}
#[proc_macro_derive(FromPrimitive)]
pub fn from_primitive(t: TokenStream) -> TokenStream {
    let (n, vs) = parts(t);
    let m: String = vs.iter().map(|v| format!("if n == {}::{} as i64 {{ return Some({}::{}); }} ", n, v, n, v)).collect();
    format!("impl ::num_traits::FromPrimitive for {} {{ fn from_i64(n: i64) -> Option<Self> {{ {} None }} fn from_u64(n: u64) -> Option<Self> {{ Self::from_i64(n as i64) }} }}", n, m).parse().unwrap()
}
#[proc_macro_derive(ToPrimitive)]
pub fn to_primitive(t: TokenStream) -> TokenStream {
    let (n, vs) = parts(t);
    let m: String = vs.iter().map(|v| format!("{}::{} => {}::{} as i64, ", n, v, n, v)).collect();
    format!("impl ::num_traits::ToPrimitive for {} {{ fn to_i64(&self) -> Option<i64> {{ Some(match *self {{ {} }}) }} fn to_u64(&self) -> Option<u64> {{ self.to_i64().map(|x| x as u64) }} }}", n, m).parse().unwrap()
}
