//props C11
//want Ok(P(1))
#[derive(Debug)] enum Token { X }
#[derive(Debug)] struct P(u8);
parsegen::parser! { enum Token { "x" => Token::X } pub S: P = { "x" => P(1), }; }
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(vec![Token::X].into_iter().map(Ok::<_, ()>))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
