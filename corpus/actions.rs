//props C11 C04
//want Ok(15)
//want Ok("x1-2")
//want Ok(3)
//want Ok(10)
//want Ok((1, 2, 3))
#[derive(Debug)] pub enum Token { X, Y, Num(u32), Id(&'static str), Kv { k: u8, v: &'static str } }
fn ok(v: Vec<Token>) -> impl Iterator<Item = Result<Token, ()>> { v.into_iter().map(Ok) }
use Token::{X, Y, Num, Id, Kv};

macro_rules! twice { ($e:expr) => { $e * 2 } }
parsegen::parser! {enum Token { "x" => Token::X, "y" => Token::Y, "num" => Token::Num(<u32>), "id" => Token::Id(<&'static str>), "kv" => Token::Kv { k: <u8>, v: <&'static str> } }

pub A: u32 = { <n:"num"> => { let f = |x: u32| move |y: u32| x + y; let mut s = 0; for k in 0..n { if k == 3 { continue; } s += f(k)(0); } 'l: loop { break 'l; } s + twice!(n) }, };
pub B: String = { "x" <a:"num"> <b:"num"> => format!("x{}-{}", a, b), };
pub C: u32 = { <a:"num"> => match a { 0 => 1, n if n > 5 => 2, _ => if let Some(x) = Some(a) { x } else { unreachable!() }, }, };
pub D: u32 = { <mut a:"num"> => { fn helper(x: &mut u32) { *x += 3; } helper(&mut a); struct Local(u32); Local(a).0 }, };
pub T: (u32, u32, u32) = { <a:"num"> <b:"num"> <c:"num"> => (a, b, c), };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", A::parse(ok(vec![Num(6)])).map(|x| x - 9)))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", B::parse(ok(vec![X, Num(1), Num(2)]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", C::parse(ok(vec![Num(3)]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", D::parse(ok(vec![Num(7)]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", T::parse(ok(vec![Num(1), Num(2), Num(3)]))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
