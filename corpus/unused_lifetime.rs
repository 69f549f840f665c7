//props C11
//want Ok(1)
#[derive(Debug)] pub enum Token<'a> { X(&'a str) }
parsegen::parser! { enum Token<'a> { "x" => Token::X(_) }
pub S: u32 = { "x" => 1, };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(vec![Token::X("q")].into_iter().map(Ok::<_, ()>))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
