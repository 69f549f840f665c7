//props C09 C11
//want Ok(2)
//want Ok(2)
//want Ok(2)
//want (Ok(2), 3)
#[derive(Debug)] pub enum Token { X, Y, Num(u32), Id(&'static str), Kv { k: u8, v: &'static str } }
fn ok(v: Vec<Token>) -> impl Iterator<Item = Result<Token, ()>> { v.into_iter().map(Ok) }
use Token::{X, Y, Num, Id, Kv};
parsegen::parser! {enum Token { "x" => Token::X, "y" => Token::Y, "num" => Token::Num(<u32>), "id" => Token::Id(<&'static str>), "kv" => Token::Kv { k: <u8>, v: <&'static str> } }

pub S: u8 = { "x" "y" => 2, };
}
fn bx<'a>(v: &'a [u8]) -> Box<dyn Iterator<Item = Result<Token, String>> + 'a> { Box::new(v.iter().map(|b| match b { 0 => Ok(X), 1 => Ok(Y), _ => Err("e".to_string()) })) }
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(bx(&[0, 1]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(std::iter::once(Ok::<Token, u8>(X)).chain(Some(Ok(Y))))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(&mut ok(vec![X, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", { let mut n = 0; let mut v = vec![Y, X]; let r = S::parse(std::iter::from_fn(|| { n += 1; v.pop().map(Ok::<_, ()>) })); (r, n) }))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
