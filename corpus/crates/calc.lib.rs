//! Parsers that another crate uses
pub mod token {
    #[derive(Debug, Clone, PartialEq)]
    pub enum Token<'a> {
        Num(i64),
        Word(&'a str),
        Plus,
        Open,
        Close,
    }
}

pub mod sum {
    use super::token::Token;

    #[derive(Debug, Clone, PartialEq)]
    pub enum Tree {
        Num(i64),
        Sum(Box<Tree>, Box<Tree>),
    }

    parsegen::parser! {
        enum Token<'a> {
            "num" => Token::Num(<i64>),
            "word" => Token::Word(<&'a str>),
            "+" => Token::Plus,
            "(" => Token::Open,
            ")" => Token::Close,
        }

        pub Sum: Tree = {
            <l:Sum> "+" <r:Atom> => Tree::Sum(Box::new(l), Box::new(r)),
            <x:Atom> => x,
        };

        pub Atom: Tree = {
            <n:"num"> => Tree::Num(n),
            "(" <x:Sum> ")" => x,
        };
    }
}

pub mod words {
    pub use super::token::Token;

    parsegen::parser! {
        enum Token<'a> {
            "word" => Token::Word(<&'a str>),
            "+" => Token::Plus,
            "rest" => _,
        }

        pub Words: usize = {
            => 0,
            <n:Words> <w:"word"> => n + w.len(),
        };
    }
}

pub use sum::Sum as Expression;
