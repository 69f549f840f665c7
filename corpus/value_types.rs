//props C11
//want Ok(3)
//want Ok([4, 5])
//want Ok(Some(((1, 2), "a")))
//want Ok({1: "one"})
//want Ok(6)
#[derive(Debug)] pub enum Token { X, Y, Num(u32), Id(&'static str), Kv { k: u8, v: &'static str } }
fn ok(v: Vec<Token>) -> impl Iterator<Item = Result<Token, ()>> { v.into_iter().map(Ok) }
use Token::{X, Y, Num, Id, Kv};

use std::collections::BTreeMap; use std::rc::Rc; use std::cell::RefCell;
#[derive(Debug)] pub struct NoClone(u32);
#[derive(Debug)] pub struct Gen<T, const N: usize> { pub x: [T; N] }
fn add(x: u32) -> u32 { x + 1 }
parsegen::parser! {enum Token { "x" => Token::X, "y" => Token::Y, "num" => Token::Num(<u32>), "id" => Token::Id(<&'static str>), "kv" => Token::Kv { k: <u8>, v: <&'static str> } }

pub F: u32 = { <f:Fn0> <n:"num"> => f(n), };
Fn0: fn(u32) -> u32 = { "x" => add, };
pub G: [u32; 2] = { <g:Gg> => g.x, };
Gg: Gen<u32, 2> = { <a:"num"> <b:"num"> => Gen { x: [a, b] }, };
pub O: Option<((u32, u32), &'static str)> = { <n:Nc> <r:Rr> <i:"id"> => Some(((n.0, *r.borrow()), i)), "y" => None, };
Nc: NoClone = { <n:"num"> => NoClone(n), };
Rr: Rc<RefCell<u32>> = { <n:"num"> => Rc::new(RefCell::new(n)), };
pub M: BTreeMap<u32, &'static str> = { => BTreeMap::new(), <mut m:M> <k:"num"> <v:"id"> => { m.insert(k, v); m }, };
pub D: u32 = { <b:Bx> => b.iter().map(|x| *x.downcast_ref::<u32>().unwrap()).sum(), };
Bx: Vec<Box<dyn std::any::Any + Send + Sync>> = { => Vec::new(), <mut b:Bx> <n:"num"> => { b.push(Box::new(n)); b }, };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", F::parse(ok(vec![X, Num(2)]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", G::parse(ok(vec![Num(4), Num(5)]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", O::parse(ok(vec![Num(1), Num(2), Id("a")]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", M::parse(ok(vec![Num(1), Id("one")]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", D::parse(ok(vec![Num(1), Num(2), Num(3)]))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
