//props C11
//want Ok(1)
#[derive(Debug)] pub enum Token { X, Y, Num(u32), Id(&'static str), Kv { k: u8, v: &'static str } }
fn ok(v: Vec<Token>) -> impl Iterator<Item = Result<Token, ()>> { v.into_iter().map(Ok) }
use Token::{X, Y, Num, Id, Kv};
parsegen::parser! {enum Token { "x" => Token::X, "y" => Token::Y, "num" => Token::Num(<u32>), "id" => Token::Id(<&'static str>), "kv" => Token::Kv { k: <u8>, v: <&'static str> } }

pub S: u8 = { "x" => 1, "y" Dead => 2, };
Dead: u16 = { "x" Dead => 2, };
Never: Vec<u8> = { };
Unreached: String = { <u:Unreached> "num" => u, => String::new(), };
pub OnlyEmpty: () = { => (), };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![X]))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
