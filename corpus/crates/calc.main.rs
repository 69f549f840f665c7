use pgdep::sum::{Atom, ParseError, Sum, Tree};
use pgdep::token::Token;
use pgdep::words::{self, Words};

#[derive(Debug, Clone, PartialEq, Eq)]
struct Bad(u8);

struct Calculator {
    last: Option<ParseError<Bad>>,
}

impl Calculator {
    fn eval(&mut self, tokens: Vec<Result<Token<'static>, Bad>>) -> Option<i64> {
        fn go(t: &Tree) -> i64 {
            match t {
                Tree::Num(n) => *n,
                Tree::Sum(a, b) => go(a) + go(b),
            }
        }
        match Sum::parse(tokens.into_iter()) {
            Ok(t) => Some(go(&t)),
            Err(e) => {
                self.last = Some(e);
                None
            }
        }
    }
}

fn describe<E: std::fmt::Debug>(e: &ParseError<E>) -> String {
    match e {
        ParseError::LexerError(e) => format!("lexer: {:?}", e),
        ParseError::ParserError { found, expected } => {
            let (found, expected): (&'static str, &'static str) = (found, expected);
            format!("found {}, expected {}", found, expected)
        }
    }
}

fn main() {
    use Token::*;
    let mut c = Calculator { last: None };
    assert_eq!(c.eval(vec![Ok(Num(1)), Ok(Plus), Ok(Open), Ok(Num(2)), Ok(Plus), Ok(Num(3)), Ok(Close)]), Some(6));
    assert_eq!(c.eval(vec![Ok(Num(1)), Ok(Num(2))]), None);
    assert_eq!(describe(c.last.as_ref().unwrap()), "found num, expected +");
    assert_eq!(c.eval(vec![Ok(Num(1)), Err(Bad(7)), Ok(Num(2))]), None);
    assert_eq!(c.last.clone(), Some(ParseError::LexerError(Bad(7))));
    assert_eq!(Atom::parse(vec![Ok::<_, ()>(Num(4))].into_iter()), Ok(Tree::Num(4)));
    assert_eq!(
        Atom::parse(vec![Ok::<_, ()>(Num(4)), Ok(Plus)].into_iter()),
        Err(ParseError::ParserError { found: "+", expected: "" })
    );
    assert_eq!(
        pgdep::Expression::parse(vec![Ok::<_, ()>(Num(4))].into_iter()),
        Sum::parse(vec![Ok::<_, ()>(Num(4))].into_iter())
    );
    let text = String::from("ab cde");
    let r: Result<usize, words::ParseError<std::num::ParseIntError>> = Words::parse(text.split(' ').map(|w| Ok(Word(w))));
    assert_eq!(r, Ok(5));
    // in a generic function, on a borrowed iterator
    fn count<'t, I: Iterator<Item = Result<Token<'t>, E>>, E: Clone>(i: &mut I) -> Option<usize> {
        Words::parse(i).ok()
    }
    let mut i = vec![Ok::<_, ()>(Word("xyz")), Ok(Num(1)), Ok(Word("u"))].into_iter();
    assert_eq!(count(&mut i), None);
    assert_eq!(i.next(), Some(Ok(Word("u"))));
    let _: Sum;
    std::thread::spawn(|| assert!(Sum::parse(std::iter::empty::<Result<Token<'static>, Bad>>()).is_err())).join().unwrap();
    println!("done");
}
