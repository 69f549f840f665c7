//props C11
//want Ok(3)
#[derive(Debug)] pub enum Token { X, Y, Num(u32), Id(&'static str), Kv { k: u8, v: &'static str } }
fn ok(v: Vec<Token>) -> impl Iterator<Item = Result<Token, ()>> { v.into_iter().map(Ok) }
use Token::{X, Y, Num, Id, Kv};
parsegen::parser! {enum Token { "x" => Token::X, "y" => Token::Y, "num" => Token::Num(<u32>), "id" => Token::Id(<&'static str>), "kv" => Token::Kv { k: <u8>, v: <&'static str> } }

pub S: u8 = { Vec Option String Box Some Result lower_case Err Ok u8 usize static_ _X Type0 Iterator Debug Self_ S1 S_ => 3, };
Vec: () = { => (), }; Option: () = { => (), }; String: () = { => (), }; Box: () = { => (), }; Some: () = { => (), }; Result: () = { => (), };
lower_case: () = { => (), }; Err: () = { => (), }; Ok: () = { => (), }; u8: () = { => (), }; usize: () = { => (), }; static_: () = { => (), };
_X: () = { => (), }; Type0: () = { => (), }; Iterator: () = { => (), }; Debug: () = { => (), }; Self_: () = { => (), }; S1: () = { => (), }; S_: () = { => (), };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![]))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
