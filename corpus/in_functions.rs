//props C11
//want Ok(1)
//want Ok(2)
pub fn e0(_: &::pgrt::Job) {
    #[derive(Debug)] pub enum Token { X }
    { parsegen::parser! { enum Token { "x" => Token::X } pub S: u8 = { "x" => 1, }; }
      ::pgrt::put(&format!("{:?}", S::parse(vec![Token::X].into_iter().map(Ok::<_, ()>)))); }
    { parsegen::parser! { enum Token { "x" => Token::X } pub S: u8 = { "x" => 2, }; }
      ::pgrt::put(&format!("{:?}", S::parse(vec![Token::X].into_iter().map(Ok::<_, ()>)))); }
}
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
