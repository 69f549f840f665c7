//props C05 C11
//want Ok(("q", "r"))
//want Ok("r2")
//want Ok(true)
#[derive(Debug)] pub enum Token<'a, 'b> { X(&'a str, &'b str), N(&'b [u8]) }
parsegen::parser! { enum Token<'a, 'b> { "x" => Token::X(<&'a str>, <&'b str>), "n" => Token::N(<&'b [u8]>) }
pub S: (&'a str, &'b str) = { <x:"x"> => x, };
pub U: &'b str = { S <x:"x"> => x.1, };
pub W: bool = { <n:"n"> => n == [1, 2], };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(vec![Token::X("q", "r")].into_iter().map(Ok::<_, ()>))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", U::parse(vec![Token::X("q", "r"), Token::X("q2", "r2")].into_iter().map(Ok::<_, ()>))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", { let v = vec![1u8, 2]; let r = W::parse(vec![Token::N(&v)].into_iter().map(Ok::<_, ()>)).map_err(|_| ()); r }))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
