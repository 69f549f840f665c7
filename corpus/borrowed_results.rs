//props C05 C11
//want ["ab", "cd"]
//want true
#[derive(Debug)] pub enum Token<'input> { Word(&'input str), Sp }
parsegen::parser! { enum Token<'input> { "w" => Token::Word(<&'input str>), " " => Token::Sp }
pub Words: Vec<&'input str> = { <w:"w"> => vec![w], <mut ws:Words> " " <w:"w"> => { ws.push(w); ws }, };
}
fn words<'t>(s: &'t str) -> Vec<&'t str> {
    let mut toks = vec![];
    for (i, w) in s.split(' ').enumerate() { if i > 0 { toks.push(Token::Sp); } toks.push(Token::Word(w)); }
    match Words::parse(toks.into_iter().map(Ok::<_, ()>)) { Ok(x) => x, Err(_) => panic!() }
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", words(&String::from("ab cd"))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", { let s = String::from("p q r"); words(&s)[1].as_ptr() == s[2..].as_ptr() }))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
