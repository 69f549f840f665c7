//! Parses the event log of a run

#[derive(Clone, Debug, PartialEq)]
pub enum LEv {
    Next(u32),
    NextErr(u32),
    End,
    /// polled after the end
    Over,
    Act {
        p: u32,
        binds: Vec<(u32, Vec<u32>)>,
        out: Vec<u32>,
    },
    Drop(u32),
    Inject,
}

#[derive(Clone, Debug, PartialEq)]
pub enum LRes {
    Ok(Vec<u32>),
    Lex(u32),
    Syn(String, String),
    Panic(String),
    Limit,
    Injected,
    /// the program died
    Crash(String),
    Hang,
}

#[derive(Clone, Debug)]
pub struct Run {
    pub evs: Vec<LEv>,
    pub res: LRes,
    /// number of events before the result was reported
    pub res_at: usize,
    pub alive: i64,
    /// quiet mode
    pub summary: Option<(u64, u64, u64)>,
    /// peak of the memory allocated, all that was allocated, CPU time in ns
    pub cost: (u64, u64, u64),
    /// lines of nested runs
    pub raw: String,
}

fn ids(s: &str) -> Vec<u32> {
    if s.is_empty() {
        return vec![];
    }
    s.split(',').map(|x| x.parse().unwrap()).collect()
}

pub fn parse(log: &str) -> Run {
    let mut r = Run {
        evs: vec![],
        res: LRes::Crash("no result".into()),
        res_at: usize::MAX,
        alive: 0,
        summary: None,
        cost: (0, 0, 0),
        raw: String::new(),
    };
    for line in log.lines() {
        let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
        match k {
            "n" => r.evs.push(LEv::Next(rest.parse().unwrap())),
            "x" => r.evs.push(LEv::NextErr(rest.parse().unwrap())),
            "z" => r.evs.push(LEv::End),
            "o" => r.evs.push(LEv::Over),
            "d" => r.evs.push(LEv::Drop(rest.parse().unwrap())),
            "i" => r.evs.push(LEv::Inject),
            "a" => {
                let (l, out) = rest.split_once('>').unwrap();
                let mut w = l.split_ascii_whitespace();
                let p = w.next().unwrap().parse().unwrap();
                let binds = w
                    .map(|x| {
                        let (a, b) = x.split_once('=').unwrap();
                        (a.parse().unwrap(), ids(b))
                    })
                    .collect();
                r.evs.push(LEv::Act {
                    p,
                    binds,
                    out: ids(out.trim()),
                });
            }
            "R" => {
                r.res_at = r.evs.len();
                let (k, rest) = rest.split_once(' ').unwrap_or((rest, ""));
                r.res = match k {
                    "ok" => LRes::Ok(ids(rest)),
                    "le" => LRes::Lex(rest.parse().unwrap()),
                    "pe" => {
                        let (a, b) = rest.split_once('\t').unwrap();
                        LRes::Syn(a.into(), b.into())
                    }
                    "panic" => LRes::Panic(rest.into()),
                    "limit" => LRes::Limit,
                    "inj" => LRes::Injected,
                    _ => panic!("bad log line {:?}", line),
                };
            }
            "e" => r.alive = rest.parse().unwrap(),
            "q" => {
                let f: Vec<&str> = rest.split_ascii_whitespace().collect();
                let v = |i: usize| f[i].split_once('=').unwrap().1;
                r.summary = Some((
                    v(0).parse().unwrap(),
                    v(1).parse().unwrap(),
                    u64::from_str_radix(v(2), 16).unwrap(),
                ));
                r.cost = (
                    v(3).parse::<i64>().unwrap().max(0) as u64,
                    v(4).parse().unwrap(),
                    v(5).parse().unwrap(),
                );
            }
            _ => {
                r.raw.push_str(line);
                r.raw.push('\n');
            }
        }
    }
    r
}

impl Run {
    /// pulls (None: end, Some(i): item) and actions, in order, without drops
    pub fn pulls(&self) -> usize {
        self.evs
            .iter()
            .filter(|e| matches!(e, LEv::Next(_) | LEv::NextErr(_) | LEv::End))
            .count()
    }
    pub fn acts(&self) -> impl Iterator<Item = u32> + '_ {
        self.evs.iter().filter_map(|e| match e {
            LEv::Act { p, .. } => Some(*p),
            _ => None,
        })
    }
}
