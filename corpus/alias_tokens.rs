//props C05 C11
//want Ok(3)
//want Ok((true, 'c'))
//want Ok(1)
//want Ok("b")
//want Ok(200)
pub mod u { pub type Token = u8; pub const PLUS: u8 = b'+'; pub const ONE: u8 = 1;
parsegen::parser! { enum Token { "+" => PLUS, "1" => ONE, "2" => 2, "c" => b'c', "other" => <u8> }
pub S: u32 = { <a:D> "+" <b:D> => a + b, <o:"other"> => o as u32, };
D: u32 = { "1" => 1, "2" => 2, "c" => 3, };
} }
pub mod t { pub type Token = (bool, (char, Option<u8>));
parsegen::parser! { enum Token { "a" => (true, (<char>, None)), "b" => (<bool>, (_, Some(1 ))), "rest" => (.., <(char, Option<u8>)>) }
pub S: (bool, char) = { <a:"a"> <b:"b"> "rest" => (b, a), };
} }
pub mod c { pub type Token = char;
parsegen::parser! { enum Token { "a" => 'a', "q" => '\'', "_" => _ }
pub S: u32 = { "a" "q" "_" => 1, };
} }
pub mod s { pub type Token = &'static str; const IF: &str = "if";
parsegen::parser! { enum Token { "if" => IF, "else" => "else", "id" => <&'static str> }
pub S: &'static str = { "if" "id" "else" <x:"id"> => x, };
} }
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", u::S::parse(vec![1u8, b'+', 2].into_iter().map(Ok::<_, ()>))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", t::S::parse(vec![(true, ('c', None)), (true, ('x', Some(1))), (false, ('z', None))].into_iter().map(Ok::<_, ()>))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", c::S::parse("a'z".chars().map(Ok::<_, ()>))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", s::S::parse(vec!["if", "a", "else", "b"].into_iter().map(Ok::<_, ()>))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", u::S::parse(vec![200u8].into_iter().map(Ok::<_, ()>))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
