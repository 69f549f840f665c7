//props C08 C11 C07
//want Err(LexerError("bad q"))
//want Err(LexerError(Bad { at: 2, text: "p q" }))
//want Err(ParserError { found: "x", expected: "y" })
//want Err(LexerError(()))
//want Err(LexerError(Some([Ok(1), Err("z")])))
//want Err(LexerError(7))
#[derive(Debug)] pub enum Token { X, Y }
#[derive(Debug, Clone)] pub struct Bad<'s> { at: usize, text: &'s str }
parsegen::parser! { enum Token { "x" => Token::X, "y" => Token::Y } pub S: u8 = { "x" "y" => 2, }; }
fn show<T: std::fmt::Debug>(x: T) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", x))); }
/// Not `PartialEq`, `Copy`, `Send` or `'static`
#[derive(Debug)] pub struct Counted<'c>(&'c std::cell::Cell<u32>, u32);
impl<'c> Clone for Counted<'c> { fn clone(&self) -> Self { self.0.set(self.0.get() + 1); Counted(self.0, self.1) } }
pub fn e0(_: &::pgrt::Job) {
    let text = String::from("bad q");
    show(S::parse(vec![Ok(Token::X), Err(text.as_str())].into_iter()));
    let other = String::from("p q");
    show(S::parse(vec![Ok(Token::X), Err(Bad { at: 2, text: &other })].into_iter()));
    show(S::parse(vec![Ok(Token::X), Ok(Token::X), Err(Bad { at: 2, text: &other })].into_iter()));
    show(S::parse(vec![Err(())].into_iter()));
    show(S::parse(vec![Err(Some(vec![Ok(1), Err("z")]))].into_iter()));
    let n = std::cell::Cell::new(0);
    let r = S::parse(vec![Ok(Token::X), Err(Counted(&n, 7)), Err(Counted(&n, 8))].into_iter());
    let r = match r { Err(ParseError::LexerError(e)) => e.1, _ => 0 };
    ::pgrt::put(&::pgrt::esc(&format!("Err(LexerError({}))", r)));
}
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
