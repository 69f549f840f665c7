//props C11 C07
//want Ok(0)
//want Ok(1)
//want Ok(2)
//want Ok(3)
//want Ok(4)
//want Ok(5)
//want Ok(6)
//want Ok(7)
//want Ok(8)
//want Ok(9)
//want Ok(10)
//want Ok(11)
//want Ok(12)
//want Ok(13)
//want Ok(14)
//want Ok(15)
//want Ok(16)
//want Ok(17)
//want Ok(18)
//want Ok(19)
//want Ok(20)
//want Ok(21)
//want Ok(22)
//want Ok(23)
//want Ok(24)
//want Ok(25)
//want Ok(26)
//want Ok(27)
//want Ok(28)
//want Ok(29)
//want true
//want true
#[derive(Debug, Clone, Copy)] pub enum Token { T0,
T1,
T2,
T3,
T4,
T5,
T6,
T7,
T8,
T9,
T10,
T11,
T12,
T13,
T14,
T15,
T16,
T17,
T18,
T19,
T20,
T21,
T22,
T23,
T24,
T25,
T26,
T27,
T28,
T29, }
parsegen::parser! { enum Token {
"" => Token::T0,
"{}" => Token::T1,
"{0}" => Token::T2,
"{x:?}" => Token::T3,
"%s" => Token::T4,
"\u{5c}\u{22}" => Token::T5,
"\u{22}" => Token::T6,
"\u{5c}\u{5c}" => Token::T7,
"\u{a}" => Token::T8,
"\u{9}" => Token::T9,
"\u{5c}" => Token::T10,
"/*" => Token::T11,
"*/" => Token::T12,
"//" => Token::T13,
"\u{e9}" => Token::T14,
"\u{65e5}\u{672c}" => Token::T15,
"\u{0}" => Token::T16,
"end-of-input" => Token::T17,
"EOF" => Token::T18,
"$" => Token::T19,
"_" => Token::T20,
".." => Token::T21,
"a b" => Token::T22,
", " => Token::T23,
"`" => Token::T24,
"#" => Token::T25,
"r#" => Token::T26,
"0" => Token::T27,
"expected" => Token::T28,
"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx" => Token::T29,
}
pub S: u32 = {
"" => 0,
"{}" => 1,
"{0}" => 2,
"{x:?}" => 3,
"%s" => 4,
"\u{5c}\u{22}" => 5,
"\u{22}" => 6,
"\u{5c}\u{5c}" => 7,
"\u{a}" => 8,
"\u{9}" => 9,
"\u{5c}" => 10,
"/*" => 11,
"*/" => 12,
"//" => 13,
"\u{e9}" => 14,
"\u{65e5}\u{672c}" => 15,
"\u{0}" => 16,
"end-of-input" => 17,
"EOF" => 18,
"$" => 19,
"_" => 20,
".." => 21,
"a b" => 22,
", " => 23,
"`" => 24,
"#" => 25,
"r#" => 26,
"0" => 27,
"expected" => 28,
"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx" => 29,
};
}
fn p(v: Vec<Token>) -> Result<u32, ParseError<()>> { S::parse(v.into_iter().map(Ok)) }
fn exp(v: Vec<Token>) -> (&'static str, &'static str) { match p(v) { Err(ParseError::ParserError { found, expected }) => (found, expected), _ => panic!() } }
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T0])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T1])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T2])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T3])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T4])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T5])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T6])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T7])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T8])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T9])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T10])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T11])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T12])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T13])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T14])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T15])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T16])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T17])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T18])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T19])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T20])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T21])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T22])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T23])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T24])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T25])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T26])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T27])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T28])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", p(vec![Token::T29])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", exp(vec![]) == ("end-of-input", &["", "{}", "{0}", "{x:?}", "%s", "\u{5c}\u{22}", "\u{22}", "\u{5c}\u{5c}", "\u{a}", "\u{9}", "\u{5c}", "/*", "*/", "//", "\u{e9}", "\u{65e5}\u{672c}", "\u{0}", "end-of-input", "EOF", "$", "_", "..", "a b", ", ", "`", "#", "r#", "0", "expected", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"].join(", ")[..])))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", exp(vec![Token::T3, Token::T6]) == ("\"", "")))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
