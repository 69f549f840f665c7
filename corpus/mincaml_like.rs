//props C11 C02 C03 C04
//want Ok("let x = 1 in (+ x (* 2 (f y)))")
//want Ok("(if (<= a b) (neg c) (arr n 0))")
//want Err(ParserError { found: "in", expected: "-, (, id, int" })
#[derive(Debug, Clone)] pub enum Token { Let, In, If, Then, Else, Eq, Le, Plus, Star, Minus, Lp, Rp, Dot, Id(String), Int(u64) }
parsegen::parser! { enum Token { "let" => Token::Let, "in" => Token::In, "if" => Token::If, "then" => Token::Then, "else" => Token::Else, "=" => Token::Eq, "<=" => Token::Le, "+" => Token::Plus, "*" => Token::Star, "-" => Token::Minus, "(" => Token::Lp, ")" => Token::Rp, "." => Token::Dot, "id" => Token::Id(<String>), "int" => Token::Int(<u64>) }
pub Expr: String = {
    "let" <x:"id"> "=" <a:Expr> "in" <b:Expr> => format!("let {} = {} in {}", x, a, b),
    "if" <c:Expr> "then" <t:Expr> "else" <e:Expr> => format!("(if {} {} {})", c, t, e),
    <c:Cmp> => c,
};
Cmp: String = { <l:Cmp> "<=" <r:Sum> => format!("(<= {} {})", l, r), <s:Sum> => s, };
Sum: String = { <l:Sum> "+" <r:Mul> => format!("(+ {} {})", l, r), <m:Mul> => m, };
Mul: String = { <l:Mul> "*" <r:Un> => format!("(* {} {})", l, r), <u:Un> => u, };
Un: String = { "-" <u:Un> => format!("(neg {})", u), <a:App> => a, };
App: String = { <f:Atom> <a:Args> => if a.is_empty() { f } else { format!("({} {})", f, a.join(" ")) }, };
Args: Vec<String> = { => vec![], <mut v:Args> <a:Atom> => { v.push(a); v }, };
Atom: String = { <x:"id"> => x, <n:"int"> => n.to_string(), "(" <e:Expr> ")" => e, };
}
fn lex(s: &str) -> Vec<Result<Token, ()>> { s.split(' ').map(|w| Ok(match w { "let" => Token::Let, "in" => Token::In, "if" => Token::If, "then" => Token::Then, "else" => Token::Else, "=" => Token::Eq, "<=" => Token::Le, "+" => Token::Plus, "*" => Token::Star, "-" => Token::Minus, "(" => Token::Lp, ")" => Token::Rp, "." => Token::Dot, w => match w.parse() { Ok(n) => Token::Int(n), Err(_) => Token::Id(w.to_string()) } })).collect() }
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", Expr::parse(lex("let x = 1 in x + 2 * ( f y )").into_iter())))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", Expr::parse(lex("if a <= b then - c else arr n 0").into_iter())))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", Expr::parse(lex("a + - in").into_iter())))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
