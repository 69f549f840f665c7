//props C11 C02
//want Ok(1)
//want Ok(2)
//want Ok(3)
//want Ok(4)
#[derive(Debug)] pub enum Token { X, Y, Num(u32), Id(&'static str), Kv { k: u8, v: &'static str } }
fn ok(v: Vec<Token>) -> impl Iterator<Item = Result<Token, ()>> { v.into_iter().map(Ok) }
use Token::{X, Y, Num, Id, Kv};
parsegen::parser! {enum Token { "x" => Token::X, "y" => Token::Y, "num" => Token::Num(<u32>), "id" => Token::Id(<&'static str>), "kv" => Token::Kv { k: <u8>, v: <&'static str> } }

pub S: u8 = { "x" A "x" => 1, "y" B "x" => 2, "x" B "y" => 3, "y" A "y" => 4, };
A: () = { "num" => (), };
B: () = { "num" => (), };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![X, Num(0), X]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![Y, Num(0), X]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![X, Num(0), Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![Y, Num(0), Y]))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
