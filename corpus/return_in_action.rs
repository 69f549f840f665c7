//props C04 C16 C11
//want Ok(9)
//want Ok(10)
//want Ok(0)
//want Err("late")
//want Ok([9, 1])
#[derive(Debug)] pub enum Token { X, Y, Num(u32), Id(&'static str), Kv { k: u8, v: &'static str } }
fn ok(v: Vec<Token>) -> impl Iterator<Item = Result<Token, ()>> { v.into_iter().map(Ok) }
use Token::{X, Y, Num, Id, Kv};
parsegen::parser! {enum Token { "x" => Token::X, "y" => Token::Y, "num" => Token::Num(<u32>), "id" => Token::Id(<&'static str>), "kv" => Token::Kv { k: <u8>, v: <&'static str> } }

pub S: u32 = { "x" <n:"num"> => { if n > 3 { return 9; } n }, <s:S> "y" => { return s + 1 }, };
pub Q: Result<u32, String> = { "x" <n:"num"> => { let k: u8 = <u8 as std::convert::TryFrom<u32>>::try_from(n).map_err(|_| "late".to_string())?; Ok(k as u32) }, };
pub L: Vec<u32> = { <a:S> <b:S> => { for x in [a, b] { if x == 9 { return vec![9, 1]; } } vec![] }, };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![X, Num(8)]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![X, Num(8), Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![X, Num(0)]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", Q::parse(ok(vec![X, Num(999)])).unwrap()))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", L::parse(ok(vec![X, Num(8), X, Num(1)]))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
