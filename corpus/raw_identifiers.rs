//props C11 C04
//want Ok(3)
//want Ok(4)
#[derive(Debug)] pub enum Token { X, Y, Num(u32), Id(&'static str), Kv { k: u8, v: &'static str } }
fn ok(v: Vec<Token>) -> impl Iterator<Item = Result<Token, ()>> { v.into_iter().map(Ok) }
use Token::{X, Y, Num, Id, Kv};
parsegen::parser! {enum Token { "x" => Token::X, "y" => Token::Y, "num" => Token::Num(<u32>), "id" => Token::Id(<&'static str>), "kv" => Token::Kv { k: <u8>, v: <&'static str> } }

pub S: u32 = { <r#type:"num"> <mut r#match:Q> => { r#match += 1; r#type + r#match }, };
Q: u32 = { <r#fn:"x"> "y" => { let _ = r#fn; 1 }, "id" => 2, };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![Num(1), X, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(ok(vec![Num(1), Id("a")]))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
