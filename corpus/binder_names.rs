//props C11 C04
//want Ok(8)
//want Ok(10)
//want Ok(12)
//want Ok(14)
//want Ok(16)
//want Ok(18)
//want Ok(20)
//want Ok(22)
//want Ok(24)
//want Ok(26)
//want Ok(28)
//want Ok(30)
//want Ok(32)
//want Ok(34)
//want Ok(36)
//want Ok(38)
//want Ok(40)
//want Ok(42)
//want Ok(44)
//want Ok(46)
//want Ok(48)
//want Ok(50)
//want Ok(52)
//want Ok(54)
//want Ok(56)
//want Ok(58)
//want Ok(60)
//want Ok(62)
//want Ok(64)
//want Ok(66)
//want Ok(68)
//want Ok(70)
//want Ok(72)
//want Ok(74)
//want Ok(76)
//want Ok(78)
//want Ok(80)
//want Ok(82)
//want Ok(84)
//want Ok(86)
//want Ok(88)
//want Ok(90)
//want Ok(92)
//want Ok(94)
//want Ok(96)
//want Ok(98)
//want Ok(100)
//want Ok(102)
//want Ok(104)
//want Ok(106)
#[derive(Debug)] pub enum Token { X, Y, Num(u32), Id(&'static str), Kv { k: u8, v: &'static str } }
fn ok(v: Vec<Token>) -> impl Iterator<Item = Result<Token, ()>> { v.into_iter().map(Ok) }
use Token::{X, Y, Num, Id, Kv};
parsegen::parser! {enum Token { "x" => Token::X, "y" => Token::Y, "num" => Token::Num(<u32>), "id" => Token::Id(<&'static str>), "kv" => Token::Kv { k: <u8>, v: <&'static str> } }
pub P0: u64 = { <value_stack:"num"> "y" => value_stack as u64 + 0, "x" <value_stack:P0> => value_stack * 2, "id" <mut value_stack:P0> "y" => { value_stack += 1; value_stack }, };
pub P1: u64 = { <state:"num"> "y" => state as u64 + 1, "x" <state:P1> => state * 2, "id" <mut state:P1> "y" => { state += 1; state }, };
pub P2: u64 = { <stack:"num"> "y" => stack as u64 + 2, "x" <stack:P2> => stack * 2, "id" <mut stack:P2> "y" => { stack += 1; stack }, };
pub P3: u64 = { <token:"num"> "y" => token as u64 + 3, "x" <token:P3> => token * 2, "id" <mut token:P3> "y" => { token += 1; token }, };
pub P4: u64 = { <tokens:"num"> "y" => tokens as u64 + 4, "x" <tokens:P4> => tokens * 2, "id" <mut tokens:P4> "y" => { tokens += 1; tokens }, };
pub P5: u64 = { <input:"num"> "y" => input as u64 + 5, "x" <input:P5> => input * 2, "id" <mut input:P5> "y" => { input += 1; input }, };
pub P6: u64 = { <action:"num"> "y" => action as u64 + 6, "x" <action:P6> => action * 2, "id" <mut action:P6> "y" => { action += 1; action }, };
pub P7: u64 = { <action_idx:"num"> "y" => action_idx as u64 + 7, "x" <action_idx:P7> => action_idx * 2, "id" <mut action_idx:P7> "y" => { action_idx += 1; action_idx }, };
pub P8: u64 = { <terminal:"num"> "y" => terminal as u64 + 8, "x" <terminal:P8> => terminal * 2, "id" <mut terminal:P8> "y" => { terminal += 1; terminal }, };
pub P9: u64 = { <goto:"num"> "y" => goto as u64 + 9, "x" <goto:P9> => goto * 2, "id" <mut goto:P9> "y" => { goto += 1; goto }, };
pub P10: u64 = { <table:"num"> "y" => table as u64 + 10, "x" <table:P10> => table * 2, "id" <mut table:P10> "y" => { table += 1; table }, };
pub P11: u64 = { <result:"num"> "y" => result as u64 + 11, "x" <result:P11> => result * 2, "id" <mut result:P11> "y" => { result += 1; result }, };
pub P12: u64 = { <f:"num"> "y" => f as u64 + 12, "x" <f:P12> => f * 2, "id" <mut f:P12> "y" => { f += 1; f }, };
pub P13: u64 = { <f0:"num"> "y" => f0 as u64 + 13, "x" <f0:P13> => f0 * 2, "id" <mut f0:P13> "y" => { f0 += 1; f0 }, };
pub P14: u64 = { <f1:"num"> "y" => f1 as u64 + 14, "x" <f1:P14> => f1 * 2, "id" <mut f1:P14> "y" => { f1 += 1; f1 }, };
pub P15: u64 = { <nt:"num"> "y" => nt as u64 + 15, "x" <nt:P15> => nt * 2, "id" <mut nt:P15> "y" => { nt += 1; nt }, };
pub P16: u64 = { <next:"num"> "y" => next as u64 + 16, "x" <next:P16> => next * 2, "id" <mut next:P16> "y" => { next += 1; next }, };
pub P17: u64 = { <x:"num"> "y" => x as u64 + 17, "x" <x:P17> => x * 2, "id" <mut x:P17> "y" => { x += 1; x }, };
pub P18: u64 = { <self_:"num"> "y" => self_ as u64 + 18, "x" <self_:P18> => self_ * 2, "id" <mut self_:P18> "y" => { self_ += 1; self_ }, };
pub P19: u64 = { <e:"num"> "y" => e as u64 + 19, "x" <e:P19> => e * 2, "id" <mut e:P19> "y" => { e += 1; e }, };
pub P20: u64 = { <r:"num"> "y" => r as u64 + 20, "x" <r:P20> => r * 2, "id" <mut r:P20> "y" => { r += 1; r }, };
pub P21: u64 = { <it:"num"> "y" => it as u64 + 21, "x" <it:P21> => it * 2, "id" <mut it:P21> "y" => { it += 1; it }, };
pub P22: u64 = { <iter:"num"> "y" => iter as u64 + 22, "x" <iter:P22> => iter * 2, "id" <mut iter:P22> "y" => { iter += 1; iter }, };
pub P23: u64 = { <lexer:"num"> "y" => lexer as u64 + 23, "x" <lexer:P23> => lexer * 2, "id" <mut lexer:P23> "y" => { lexer += 1; lexer }, };
pub P24: u64 = { <expected:"num"> "y" => expected as u64 + 24, "x" <expected:P24> => expected * 2, "id" <mut expected:P24> "y" => { expected += 1; expected }, };
pub P25: u64 = { <found:"num"> "y" => found as u64 + 25, "x" <found:P25> => found * 2, "id" <mut found:P25> "y" => { found += 1; found }, };
pub P26: u64 = { <found_:"num"> "y" => found_ as u64 + 26, "x" <found_:P26> => found_ * 2, "id" <mut found_:P26> "y" => { found_ += 1; found_ }, };
pub P27: u64 = { <arg:"num"> "y" => arg as u64 + 27, "x" <arg:P27> => arg * 2, "id" <mut arg:P27> "y" => { arg += 1; arg }, };
pub P28: u64 = { <args:"num"> "y" => args as u64 + 28, "x" <args:P28> => args * 2, "id" <mut args:P28> "y" => { args += 1; args }, };
pub P29: u64 = { <item:"num"> "y" => item as u64 + 29, "x" <item:P29> => item * 2, "id" <mut item:P29> "y" => { item += 1; item }, };
pub P30: u64 = { <v:"num"> "y" => v as u64 + 30, "x" <v:P30> => v * 2, "id" <mut v:P30> "y" => { v += 1; v }, };
pub P31: u64 = { <n:"num"> "y" => n as u64 + 31, "x" <n:P31> => n * 2, "id" <mut n:P31> "y" => { n += 1; n }, };
pub P32: u64 = { <i:"num"> "y" => i as u64 + 32, "x" <i:P32> => i * 2, "id" <mut i:P32> "y" => { i += 1; i }, };
pub P33: u64 = { <len:"num"> "y" => len as u64 + 33, "x" <len:P33> => len * 2, "id" <mut len:P33> "y" => { len += 1; len }, };
pub P34: u64 = { <pop:"num"> "y" => pop as u64 + 34, "x" <pop:P34> => pop * 2, "id" <mut pop:P34> "y" => { pop += 1; pop }, };
pub P35: u64 = { <push:"num"> "y" => push as u64 + 35, "x" <push:P35> => push * 2, "id" <mut push:P35> "y" => { push += 1; push }, };
pub P36: u64 = { <t:"num"> "y" => t as u64 + 36, "x" <t:P36> => t * 2, "id" <mut t:P36> "y" => { t += 1; t }, };
pub P37: u64 = { <idx:"num"> "y" => idx as u64 + 37, "x" <idx:P37> => idx * 2, "id" <mut idx:P37> "y" => { idx += 1; idx }, };
pub P38: u64 = { <state_stack:"num"> "y" => state_stack as u64 + 38, "x" <state_stack:P38> => state_stack * 2, "id" <mut state_stack:P38> "y" => { state_stack += 1; state_stack }, };
pub P39: u64 = { <values:"num"> "y" => values as u64 + 39, "x" <values:P39> => values * 2, "id" <mut values:P39> "y" => { values += 1; values }, };
pub P40: u64 = { <semantic_actions:"num"> "y" => semantic_actions as u64 + 40, "x" <semantic_actions:P40> => semantic_actions * 2, "id" <mut semantic_actions:P40> "y" => { semantic_actions += 1; semantic_actions }, };
pub P41: u64 = { <parse:"num"> "y" => parse as u64 + 41, "x" <parse:P41> => parse * 2, "id" <mut parse:P41> "y" => { parse += 1; parse }, };
pub P42: u64 = { <token_value:"num"> "y" => token_value as u64 + 42, "x" <token_value:P42> => token_value * 2, "id" <mut token_value:P42> "y" => { token_value += 1; token_value }, };
pub P43: u64 = { <token_terminal_idx:"num"> "y" => token_terminal_idx as u64 + 43, "x" <token_terminal_idx:P43> => token_terminal_idx * 2, "id" <mut token_terminal_idx:P43> "y" => { token_terminal_idx += 1; token_terminal_idx }, };
pub P44: u64 = { <loop_:"num"> "y" => loop_ as u64 + 44, "x" <loop_:P44> => loop_ * 2, "id" <mut loop_:P44> "y" => { loop_ += 1; loop_ }, };
pub P45: u64 = { <ok:"num"> "y" => ok as u64 + 45, "x" <ok:P45> => ok * 2, "id" <mut ok:P45> "y" => { ok += 1; ok }, };
pub P46: u64 = { <err:"num"> "y" => err as u64 + 46, "x" <err:P46> => err * 2, "id" <mut err:P46> "y" => { err += 1; err }, };
pub P47: u64 = { <found_terminal:"num"> "y" => found_terminal as u64 + 47, "x" <found_terminal:P47> => found_terminal * 2, "id" <mut found_terminal:P47> "y" => { found_terminal += 1; found_terminal }, };
pub P48: u64 = { <current_state:"num"> "y" => current_state as u64 + 48, "x" <current_state:P48> => current_state * 2, "id" <mut current_state:P48> "y" => { current_state += 1; current_state }, };
pub P49: u64 = { <non_terminal:"num"> "y" => non_terminal as u64 + 49, "x" <non_terminal:P49> => non_terminal * 2, "id" <mut non_terminal:P49> "y" => { non_terminal += 1; non_terminal }, };
}
pub fn e0(_: &::pgrt::Job) { ::pgrt::put(&::pgrt::esc(&format!("{:?}", P0::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P1::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P2::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P3::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P4::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P5::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P6::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P7::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P8::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P9::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P10::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P11::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P12::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P13::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P14::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P15::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P16::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P17::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P18::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P19::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P20::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P21::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P22::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P23::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P24::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P25::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P26::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P27::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P28::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P29::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P30::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P31::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P32::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P33::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P34::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P35::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P36::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P37::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P38::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P39::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P40::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P41::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P42::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P43::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P44::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P45::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P46::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P47::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P48::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); ::pgrt::put(&::pgrt::esc(&format!("{:?}", P49::parse(ok(vec![X, Id("q"), Num(3), Y, Y]))))); }
pub const ENTRIES: &[::pgrt::Entry] = &[e0];
