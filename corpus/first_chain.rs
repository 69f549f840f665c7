//props C02 C06 C07 C11
//want Ok(1)
//want Err(ParserError { found: "x", expected: "y" })
#[derive(Debug)] pub enum Token { X, Y, Num(u32), Id(&'static str), Kv { k: u8, v: &'static str } }
fn ok(v: Vec<Token>) -> impl Iterator<Item = Result<Token, ()>> { v.into_iter().map(Ok) }
use Token::{X, Y, Num, Id, Kv};
parsegen::parser! {enum Token { "x" => Token::X, "y" => Token::Y, "num" => Token::Num(<u32>), "id" => Token::Id(<&'static str>), "kv" => Token::Kv { k: <u8>, v: <&'static str> } }

pub S: u8 = { X0 A "y" => 1, };
X0: () = { "x" => (), };
A: () = { B => (), };
B: () = { C => (), };
C: () = { D => (), };
D: () = { E => (), };
E: () = { F => (), };
F: () = { => (), };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![X, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![X, X]))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
