//props C11
//want Ok((A, T))
#[derive(Debug)] pub enum Token { X }
#[derive(Debug)] pub struct A;
#[derive(Debug)] pub struct B;
#[derive(Debug)] pub struct T;
#[derive(Debug)] pub struct K;
#[derive(Debug)] pub struct V;
#[derive(Debug)] pub struct P;
#[derive(Debug)] pub struct S0;
#[derive(Debug)] pub struct Error;
#[derive(Debug)] pub struct Parser;
#[derive(Debug)] pub struct State;
#[derive(Debug)] pub struct Value;
parsegen::parser! { enum Token { "x" => Token::X }
pub S: (A, T) = { <a:Aa> <t:Tt> <_v:Vv> => (a, t), };
Aa: A = { "x" => A, };
Tt: T = { => T, };
Bb: B = { => B, };
Kk: K = { Bb => K, };
Vv: V = { Kk Pp => V, };
Pp: P = { Ss Ee => P, };
Ss: S0 = { => S0, };
Ee: Error = { Ps St Va => Error, };
Ps: Parser = { => Parser, };
St: State = { => State, };
Va: Value = { => Value, };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", S::parse(vec![Token::X].into_iter().map(Ok::<_, ()>))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
