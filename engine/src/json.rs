//! Minimal JSON writer

#[derive(Clone, Debug)]
pub enum Value {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<Value>),
    Obj(Vec<(String, Value)>),
}

impl From<&str> for Value {
    fn from(s: &str) -> Value {
        Value::Str(s.into())
    }
}
impl From<String> for Value {
    fn from(s: String) -> Value {
        Value::Str(s)
    }
}
impl From<u64> for Value {
    fn from(s: u64) -> Value {
        Value::Int(s as i64)
    }
}
impl From<usize> for Value {
    fn from(s: usize) -> Value {
        Value::Int(s as i64)
    }
}

pub fn obj(v: Vec<(&str, Value)>) -> Value {
    Value::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

fn string(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

impl Value {
    pub fn write(&self, out: &mut String, ind: usize) {
        let nl = |out: &mut String, n: usize| {
            out.push('\n');
            out.push_str(&" ".repeat(n));
        };
        match self {
            Value::Null => out.push_str("null"),
            Value::Bool(b) => out.push_str(&b.to_string()),
            Value::Int(i) => out.push_str(&i.to_string()),
            Value::Num(x) => out.push_str(&format!("{:.3}", x)),
            Value::Str(s) => string(s, out),
            Value::Arr(v) => {
                out.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        out.push(',');
                    }
                    nl(out, ind + 1);
                    x.write(out, ind + 1);
                }
                if !v.is_empty() {
                    nl(out, ind);
                }
                out.push(']');
            }
            Value::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    nl(out, ind + 1);
                    string(k, out);
                    out.push_str(": ");
                    x.write(out, ind + 1);
                }
                if !v.is_empty() {
                    nl(out, ind);
                }
                out.push('}');
            }
        }
    }
}
