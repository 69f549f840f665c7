//props C11 C14
//want Ok(3)
//want Ok(2)
//want Ok(8)
#[derive(Debug)] pub enum r#enum { X, Y(u32) }
fn ok(v: Vec<r#enum>) -> impl Iterator<Item = Result<r#enum, ()>> { v.into_iter().map(Ok) }
parsegen::parser! { enum r#enum { "x" => r#enum::X, "y" => r#enum::Y(<u32>) }
pub r#match: u32 = { "x" <r#loop:r#loop> => 1 + r#loop, };
pub r#loop: u32 = { "x" => 2, <r#match:"y"> => r#match, };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", r#match::parse(ok(vec![r#enum::X, r#enum::X]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", r#loop::parse(ok(vec![r#enum::X]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", r#loop::parse(ok(vec![r#enum::Y(8)]))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
