//! A simulated program (the operations every thread performs, and the faults bound to them),
//! a schedule, and their text form: the replay file.
use rt::Switch;
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum F {
    Set(usize),
    Add(usize),
    Same(usize),
    Del,
    DelOdd(usize),
}

/// `old` of a compare-exchange: a constant, or whatever this thread last saw under the key.
pub const SEEN: usize = 0x5EE5_5EE5_5EE5_5EE5;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Get(usize),
    Insert(usize, usize),
    Remove(usize),
    Cip(usize, F),
    Coi(usize, F),
    Cas(usize, usize, Option<usize>),
    Range(usize, usize, usize),
    IsEmpty,
    Stats,
    Gc(usize),
    Repin,
    /// drop the tree and start a new one in its place
    Renew,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct OpX {
    pub op: Op,
    pub tree: u8,
    /// bit n: the n-th allocation attempt of this operation fails
    pub oom: u64,
    /// bit n: the n-th time this operation may see an older value of an atomic word, it does
    pub weak: u64,
    /// the callback panics on this invocation (0: never)
    pub panic: u32,
    /// the thread stalls at this event of the operation until all others are done
    pub stall: Option<u64>,
    /// the callback works on another tree while it is at it: (tree, key, value to insert)
    pub nest: Option<(u8, usize, Option<usize>)>,
    /// the operation is done so many times more (an insert: with other values)
    pub rep: u32,
}

pub fn ox(op: Op) -> OpX {
    OpX { op, tree: 0, oom: 0, weak: 0, panic: 0, stall: None, nest: None, rep: 0 }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Program {
    pub facades: Vec<u8>,
    pub long: Vec<bool>, // index 0: driver; guard held over the whole phase
    pub uniq: bool,
    /// per tree: the only thread that touches it in the concurrent phase (0: all do)
    pub private: Vec<u8>,
    /// one guard serves all trees
    pub xguard: bool,
    pub pre: Vec<OpX>,
    pub tasks: Vec<Vec<OpX>>,
    pub post: Vec<OpX>,
}

#[derive(Clone, Debug, Default)]
pub struct Sched {
    pub first: usize,
    pub cap1: u64,
    pub switches: Vec<Switch>,
}

fn fstr(f: &F) -> String {
    match f {
        F::Set(v) => format!("set:{v:x}"),
        F::Add(v) => format!("add:{v:x}"),
        F::Same(v) => format!("same:{v:x}"),
        F::Del => "del:0".into(),
        F::DelOdd(v) => format!("delodd:{v:x}"),
    }
}

pub fn opstr(o: &OpX) -> String {
    let mut s = String::new();
    match &o.op {
        Op::Get(k) => write!(s, "get {k:x}"),
        Op::Insert(k, v) => write!(s, "insert {k:x} {v:x}"),
        Op::Remove(k) => write!(s, "remove {k:x}"),
        Op::Cip(k, f) => write!(s, "compute_if_present {k:x} {}", fstr(f)),
        Op::Coi(k, f) => write!(s, "compute_or_insert {k:x} {}", fstr(f)),
        Op::Cas(k, o, n) => {
            let o = if *o == SEEN { "seen".into() } else { format!("{o:x}") };
            let n = n.map(|n| format!("{n:x}")).unwrap_or("-".into());
            write!(s, "compare_exchange {k:x} {o} {n}")
        }
        Op::Range(a, b, n) => write!(s, "range {a:x} {b:x} {n}"),
        Op::IsEmpty => write!(s, "is_empty"),
        Op::Stats => write!(s, "stats"),
        Op::Gc(n) => write!(s, "gc {n}"),
        Op::Repin => write!(s, "repin"),
        Op::Renew => write!(s, "renew"),
    }
    .unwrap();
    if o.tree != 0 {
        write!(s, " tree={}", o.tree).unwrap();
    }
    if o.oom != 0 {
        write!(s, " oom={:x}", o.oom).unwrap();
    }
    if o.weak != 0 {
        write!(s, " weak={:x}", o.weak).unwrap();
    }
    if o.panic != 0 {
        write!(s, " panic={}", o.panic).unwrap();
    }
    if o.rep != 0 {
        write!(s, " rep={}", o.rep).unwrap();
    }
    if let Some(e) = o.stall {
        write!(s, " stall={e}").unwrap();
    }
    if let Some((t, k, v)) = o.nest {
        write!(s, " nest={t}:{k:x}:{}", v.map(|v| format!("{v:x}")).unwrap_or("-".into())).unwrap();
    }
    s
}

fn hx(s: &str) -> usize {
    usize::from_str_radix(s, 16).expect("hex number in case file")
}

fn parse_f(s: &str) -> F {
    let (a, b) = s.split_once(':').expect("function");
    let v = hx(b);
    match a {
        "set" => F::Set(v),
        "add" => F::Add(v),
        "same" => F::Same(v),
        "del" => F::Del,
        _ => F::DelOdd(v),
    }
}

pub fn parse_op(s: &str) -> OpX {
    let mut o = ox(Op::Repin);
    let mut w: Vec<&str> = vec![];
    for t in s.split_whitespace() {
        if let Some((k, v)) = t.split_once('=') {
            match k {
                "tree" => o.tree = v.parse().unwrap(),
                "oom" => o.oom = hx(v) as u64,
                "weak" => o.weak = hx(v) as u64,
                "panic" => o.panic = v.parse().unwrap(),
                "rep" => o.rep = v.parse().unwrap(),
                "stall" => o.stall = Some(v.parse().unwrap()),
                "nest" => {
                    let w: Vec<&str> = v.split(':').collect();
                    o.nest = Some((w[0].parse().unwrap(), hx(w[1]), if w[2] == "-" { None } else { Some(hx(w[2])) }));
                }
                _ => panic!("unknown attribute {k}"),
            }
        } else {
            w.push(t);
        }
    }
    o.op = match w[0] {
        "get" => Op::Get(hx(w[1])),
        "insert" => Op::Insert(hx(w[1]), hx(w[2])),
        "remove" => Op::Remove(hx(w[1])),
        "compute_if_present" => Op::Cip(hx(w[1]), parse_f(w[2])),
        "compute_or_insert" => Op::Coi(hx(w[1]), parse_f(w[2])),
        "compare_exchange" => Op::Cas(
            hx(w[1]),
            if w[2] == "seen" { SEEN } else { hx(w[2]) },
            if w[3] == "-" { None } else { Some(hx(w[3])) },
        ),
        "range" => Op::Range(hx(w[1]), hx(w[2]), w[3].parse().unwrap()),
        "is_empty" => Op::IsEmpty,
        "stats" => Op::Stats,
        "gc" => Op::Gc(w[1].parse().unwrap()),
        "repin" => Op::Repin,
        "renew" => Op::Renew,
        x => panic!("unknown operation {x}"),
    };
    o
}

pub fn program_text(p: &Program) -> String {
    let mut s = String::new();
    let l = |v: &Vec<u8>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    writeln!(s, "facades {}", l(&p.facades)).unwrap();
    writeln!(s, "long {}", l(&p.long.iter().map(|b| *b as u8).collect())).unwrap();
    writeln!(s, "uniq {}", p.uniq as u8).unwrap();
    if p.private.iter().any(|x| *x != 0) {
        writeln!(s, "private {}", l(&p.private)).unwrap();
    }
    if p.xguard {
        writeln!(s, "xguard 1").unwrap();
    }
    writeln!(s, "threads {}", p.tasks.len()).unwrap();
    for o in &p.pre {
        writeln!(s, "pre  | {}", opstr(o)).unwrap();
    }
    for (i, t) in p.tasks.iter().enumerate() {
        for o in t {
            writeln!(s, "t{}   | {}", i + 1, opstr(o)).unwrap();
        }
    }
    for o in &p.post {
        writeln!(s, "post | {}", opstr(o)).unwrap();
    }
    s
}

pub fn sched_text(c: &Sched) -> String {
    let mut s = String::new();
    writeln!(s, "cap1 {}", c.cap1).unwrap();
    writeln!(s, "first {}", c.first).unwrap();
    for w in &c.switches {
        if w.task == 0 {
            continue;
        }
        if w.ev == u64::MAX {
            writeln!(s, "switch t{} end -> t{}", w.task, w.to).unwrap();
        } else {
            writeln!(s, "switch t{} {} -> t{}", w.task, w.ev, w.to).unwrap();
        }
    }
    s
}

#[derive(Clone, Default)]
pub struct Case {
    pub check: String,
    pub build: String,
    pub class: String,
    pub msg: String,
    pub hash: String,
    pub prog: Program,
    pub sched: Sched,
}

pub fn case_text(c: &Case) -> String {
    let mut s = String::from("congee-sim case v1\n");
    writeln!(s, "check {}\nbuild {}\nclass {}\nhash {}", c.check, c.build, c.class, c.hash).unwrap();
    for l in c.msg.lines() {
        writeln!(s, "# {l}").unwrap();
    }
    s.push_str(&program_text(&c.prog));
    s.push_str(&sched_text(&c.sched));
    s
}

pub fn parse_case(t: &str) -> Case {
    let mut c = Case::default();
    for line in t.lines() {
        if let Some(m) = line.strip_prefix("# ") {
            c.msg.push_str(m);
            c.msg.push('\n');
            continue;
        }
        if let Some((ph, op)) = line.split_once('|') {
            let o = parse_op(op);
            match ph.trim() {
                "pre" => c.prog.pre.push(o),
                "post" => c.prog.post.push(o),
                t => {
                    let i: usize = t[1..].parse().unwrap();
                    c.prog.tasks[i - 1].push(o);
                }
            }
            continue;
        }
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        let nums = || w[1..].iter().map(|x| x.parse::<u8>().unwrap()).collect::<Vec<u8>>();
        match w[0] {
            "check" => c.check = w.get(1).unwrap_or(&"").to_string(),
            "build" => c.build = w.get(1).unwrap_or(&"").to_string(),
            "class" => c.class = w.get(1).unwrap_or(&"").to_string(),
            "hash" => c.hash = w.get(1).unwrap_or(&"").to_string(),
            "facades" => c.prog.facades = nums(),
            "long" => c.prog.long = nums().iter().map(|x| *x != 0).collect(),
            "private" => c.prog.private = nums(),
            "xguard" => c.prog.xguard = w[1] == "1",
            "uniq" => c.prog.uniq = w[1] == "1",
            "threads" => c.prog.tasks = vec![vec![]; w[1].parse().unwrap()],
            "cap1" => c.sched.cap1 = w[1].parse().unwrap(),
            "first" => c.sched.first = w[1].parse().unwrap(),
            "switch" => {
                let ev = if w[2] == "end" { u64::MAX } else { w[2].parse().unwrap() };
                c.sched.switches.push(Switch { task: w[1][1..].parse().unwrap(), ev, to: w[4][1..].parse().unwrap() });
            }
            _ => {}
        }
    }
    c
}
