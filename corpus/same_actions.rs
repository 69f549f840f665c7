//props C04 C19
//want Ok(4)
//want Ok(-4)
//want Ok(6)
//want Ok([3, 2])
//want Ok([2, 3])
use Token::{Minus, Flip, Comma, Swap, Num};
pub enum Token { Minus, Flip, Comma, Swap, Num(i32) }
fn ok(v: Vec<Token>) -> impl Iterator<Item = Result<Token, ()>> { v.into_iter().map(Ok) }
parsegen::parser! {
enum Token { "-" => Token::Minus, "~" => Token::Flip, "," => Token::Comma, "^" => Token::Swap, "n" => Token::Num(<i32>) }

pub E: i32 = {
    <l:E> "-" <r:N> => l - r,
    <r:E> "~" <l:N> => l - r,
    <x:N> => x,
};
N: i32 = { <x:"n"> => x };
pub L: Vec<i32> = {
    <a:N> "," <b:N> => vec![a, b],
    <b:N> "^" <a:N> => vec![a, b],
};
}
pub fn e0(_: &::pgrt::Job) {
    ::pgrt::put(&::pgrt::esc(&format!("{:?}", E::parse(ok(vec![Num(7), Minus, Num(3)])).map_err(|_| ()))));
    ::pgrt::put(&::pgrt::esc(&format!("{:?}", E::parse(ok(vec![Num(7), Flip, Num(3)])).map_err(|_| ()))));
    ::pgrt::put(&::pgrt::esc(&format!("{:?}", E::parse(ok(vec![Num(7), Minus, Num(3), Flip, Num(10)])).map_err(|_| ()))));
    ::pgrt::put(&::pgrt::esc(&format!("{:?}", L::parse(ok(vec![Num(3), Comma, Num(2)])).map_err(|_| ()))));
    ::pgrt::put(&::pgrt::esc(&format!("{:?}", L::parse(ok(vec![Num(3), Swap, Num(2)])).map_err(|_| ()))));
}
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
