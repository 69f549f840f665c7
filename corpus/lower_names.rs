//props C11 C14 C04
//want Ok(1)
//want Ok(1)
//want Ok(5)
#[derive(Debug)] pub enum Token { X, Y(u32) }
fn ok(v: Vec<Token>) -> impl Iterator<Item = Result<Token, ()>> { v.into_iter().map(Ok) }
parsegen::parser! { enum Token { "x" => Token::X, "y" => Token::Y(<u32>) }
pub x: u32 = { "x" <state:state> => state, };
pub state: u32 = { <x:value_stack> => x, <mut input:input> => { input += 1; input }, };
pub value_stack: u32 = { <token:token> => token, };
pub token: u32 = { => 1, };
pub f0: u32 = { => 1, };
pub input: u32 = { <input:"y"> => input, };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", x::parse(ok(vec![Token::X]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", f0::parse(ok(vec![]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", state::parse(ok(vec![Token::Y(4)]))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
