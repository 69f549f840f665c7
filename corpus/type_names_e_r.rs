//props C11
//want Ok(E1)
//want Ok((R(2), T2, L, I))
//want Err(LexerError(5))
#[derive(Debug)] pub enum Token { X }
#[derive(Debug)] pub enum E { E1 }
#[derive(Debug)] pub struct R(u8);
#[derive(Debug)] pub struct T2;
#[derive(Debug)] pub struct L;
#[derive(Debug)] pub struct I;
parsegen::parser! { enum Token { "x" => Token::X }
pub S: E = { "x" => E::E1, };
pub U: (R, T2, L, I) = { "x" "x" => (R(2), T2, L, I), };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(vec![Token::X].into_iter().map(Ok::<_, ()>))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", U::parse(vec![Token::X, Token::X].into_iter().map(Ok::<_, ()>))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", U::parse(vec![Ok(Token::X), Err(5u64)].into_iter())))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
