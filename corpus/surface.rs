//props C11 C19
//want Ok(1)
//want Ok(2)
//want Ok(3)
//want Ok(4)
#[derive(Debug)] pub enum Token { X, Y, Num(u32), Id(&'static str), Kv { k: u8, v: &'static str } }
fn ok(v: Vec<Token>) -> impl Iterator<Item = Result<Token, ()>> { v.into_iter().map(Ok) }
use Token::{X, Y, Num, Id, Kv};

pub mod a { use super::*; parsegen::parser! { pub S: u8 = "x" => 1, enum Token { "x" => Token::X, "y" => Token::Y, "num" => Token::Num(<u32>), "id" => Token::Id(<&'static str>), "kv" => Token::Kv { k: <u8>, v: <&'static str> } }
 type State = (u8, Vec<String>); } }
pub mod b { use super::*; parsegen::parser! { type State = u8; pub S: u8 = { "x" => 2 }; enum Token { r"x" => Token::X, r#"y"# => Token::Y, "num" => Token::Num(_), "rest" => _, } } }
pub mod c { use super::*; parsegen::parser!( enum Token { "x" => Token::X, "rest" => _ } pub S: u8 = Q => { 3 }, Q: () = { "x" => {} "rest" => {} }; ); }
pub mod d { use super::*; parsegen::parser![ enum Token { "x" => Token::X, "rest" => _ } T: () = { => () , }; pub S: u8 = T "x" T => 4, ]; }
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", a::S::parse(ok(vec![X]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", b::S::parse(ok(vec![X]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", c::S::parse(ok(vec![X]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", d::S::parse(ok(vec![X]))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
