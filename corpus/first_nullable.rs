//props C02 C06 C07 C11
//want Ok(1)
//want Ok(1)
//want Err(ParserError { found: "end-of-input", expected: "x, y" })
#[derive(Debug)] pub enum Token { X, Y, Num(u32), Id(&'static str), Kv { k: u8, v: &'static str } }
fn ok(v: Vec<Token>) -> impl Iterator<Item = Result<Token, ()>> { v.into_iter().map(Ok) }
use Token::{X, Y, Num, Id, Kv};
parsegen::parser! {enum Token { "x" => Token::X, "y" => Token::Y, "num" => Token::Num(<u32>), "id" => Token::Id(<&'static str>), "kv" => Token::Kv { k: <u8>, v: <&'static str> } }

pub S: u8 = { X0 T => 1, };
X0: () = { "num" => (), };
T: () = { A "y" => (), };
A: () = { "x" => (), => (), };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![Num(1), X, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![Num(1), Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![Num(1)]))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
