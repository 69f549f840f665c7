//props C11
//want Ok(5)
#[derive(Debug)] pub enum Token { X }
macro_rules! make { ($t:ident, $n:ident, $v:expr) => { parsegen::parser! { enum $t { "x" => Token::X } pub $n: u8 = { "x" => $v, }; } } }
make!(Token, S, 5);
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(vec![Token::X].into_iter().map(Ok::<_, ()>))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
