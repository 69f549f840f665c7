//props C05 C11
//want Ok(("s", 4))
//want Ok(2)
#[derive(Debug, Clone, Copy, PartialEq)] pub enum Kind { A, B }
#[derive(Debug, Clone)] pub struct Token { pub kind: Kind, pub text: &'static str, pub line: u32 }
#[derive(Debug)] pub struct Tk(pub Kind, pub u32);
parsegen::parser! { enum Token { "a" => Token { line: <u32>, kind: Kind::A, text: <&'static str> }, "b" => Token { kind: Kind::B, .. } }
pub S: (&'static str, u32) = { <x:"a"> "b" => (x.1, x.0), };
}
pub mod n { use super::*; parsegen::parser! { enum Tk { "a" => Tk(Kind::A, <u32>), "b" => Tk(..) } pub S: u32 = { "b" <x:"a"> => x, }; } }
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(vec![Token { kind: Kind::A, text: "s", line: 4 }, Token { kind: Kind::B, text: "", line: 5 }].into_iter().map(Ok::<_, ()>))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", n::S::parse(vec![Tk(Kind::B, 1), Tk(Kind::A, 2)].into_iter().map(Ok::<_, ()>))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
