//props C11
//want Ok(2)
//want Err(LexerError(NoTraits))
pub enum Token { X, Y(NotDebug) } pub struct NotDebug;
pub struct NoTraits;
parsegen::parser! { enum Token { "x" => Token::X, "y" => Token::Y(_) } pub S: u8 = { "x" "y" => 2, }; }
#[derive(Clone)] pub struct ErrC;
pub fn e0(_: &::pgrt::Job) {
    let r: Result<u8, ParseError<ErrC>> = S::parse(vec![Ok(Token::X), Ok(Token::Y(NotDebug))].into_iter());
    ::pgrt::put(&format!("Ok({})", match r { Ok(x) => x, Err(_) => 0 }));
    let r: Result<u8, ParseError<ErrC>> = S::parse(vec![Ok(Token::X), Err(ErrC)].into_iter());
    ::pgrt::put(match r { Err(ParseError::LexerError(ErrC)) => "Err(LexerError(NoTraits))", _ => "?" });
}
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
