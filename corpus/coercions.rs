//props C04 C11 C16 C17
//want Ok(Dog(3))
//want Ok([1, 2])
//want Ok(true)
//want Ok("ab")
//want Ok(7)
//want Ok(Some(5))
//want Ok(None)
#[derive(Debug)] pub enum Token<'t> { X, Y, Num(u32), Id(&'t str), Own(Vec<u32>) }
fn ok<'t>(v: Vec<Token<'t>>) -> impl Iterator<Item = Result<Token<'t>, ()>> { v.into_iter().map(Ok) }
use std::fmt::Debug;
#[derive(Debug)] pub struct Dog(u32);
parsegen::parser! { enum Token<'t> { "x" => Token::X, "y" => Token::Y, "num" => Token::Num(<u32>), "id" => Token::Id(<&'t str>), "own" => Token::Own(<Vec<u32>>) }
pub Animal: Box<dyn Debug> = { <d:Dog0> => d, <x:Animal> "y" => x };
Dog0: Box<Dog> = { <n:"num"> => Box::new(Dog(n)), };
pub Slice: Box<[u32]> = { <a:Arr> => a };
Arr: Box<[u32; 2]> = { <a:"num"> <b:"num"> => Box::new([a, b]) };
pub Fun: bool = { <f:Fp> <n:"num"> => f(n) };
Fp: fn(u32) -> bool = { <f:Item> => f, };
Item: fn(u32) -> bool = { "x" => |n| n > 1 };
pub Str: &'t str = { <s:St> => s, <i:"id"> => i };
St: &'static str = { "y" => "ab" };
pub Never: u32 = { <d:"own"> => { let x: Box<dyn Debug> = Box::new(d); 7 }, };
pub Opt: Option<u32> = { <a:Tri> => { let x = a?; Some(x + 1) }, };
Tri: Option<u32> = { <n:"num"> => n.checked_sub(1) };
}
fn show<T: Debug>(x: T) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", x))); }
pub fn e0(_: &::pgrt::Job) {
    use Token::*;
    show(Animal::parse(ok(vec![Num(3), Y])));
    show(Slice::parse(ok(vec![Num(1), Num(2)])));
    show(Fun::parse(ok(vec![X, Num(2)])));
    show(Str::parse(ok(vec![Y])));
    show(Never::parse(ok(vec![Own(vec![1])])));
    show(Opt::parse(ok(vec![Num(5)])));
    show(Opt::parse(ok(vec![Num(0)])));
}
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
