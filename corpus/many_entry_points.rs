//props C14 C11
//want Ok(1)
//want Ok(2)
//want Ok(3)
//want Err(ParserError { found: "y", expected: "" })
#[derive(Debug)] pub enum Token { X, Y, Num(u32), Id(&'static str), Kv { k: u8, v: &'static str } }
fn ok(v: Vec<Token>) -> impl Iterator<Item = Result<Token, ()>> { v.into_iter().map(Ok) }
use Token::{X, Y, Num, Id, Kv};
parsegen::parser! {enum Token { "x" => Token::X, "y" => Token::Y, "num" => Token::Num(<u32>), "id" => Token::Id(<&'static str>), "kv" => Token::Kv { k: <u8>, v: <&'static str> } }

pub A: u8 = { "x" => 1, }; pub B: u8 = { <a:A> "y" => a + 1, }; pub C: u8 = { "y" <b:B> => b + 1, }; pub A1: u8 = { A "y" "y" => 4, };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", A::parse(ok(vec![X]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", B::parse(ok(vec![X, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", C::parse(ok(vec![Y, X, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", A::parse(ok(vec![X, Y]))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
