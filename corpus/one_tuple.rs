//props C05 C11
//want Ok(7)
#[derive(Debug)] pub enum Token { X((u32,)) }
parsegen::parser! { enum Token { "x" => Token::X((<u32>,)) }
pub S: u32 = { <a:"x"> => a, };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(vec![Token::X((7,))].into_iter().map(Ok::<_, ()>))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
