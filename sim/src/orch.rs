//! A check: spread seeded search over worker processes, minimise what fails, report.
use crate::case::*;
use crate::cfgs;
use crate::evid;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

struct W {
    child: Option<Child>,
    case: String,
    out: String,
    build: &'static str,
}

pub fn check(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let id = a.get(2).expect("property id").clone();
    let tier = arg(a, "--tier").unwrap_or("quick".into());
    let seed: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let rel = arg(a, "--rel").expect("--rel");
    let chk = arg(a, "--chk").expect("--chk");
    let root = arg(a, "--root").unwrap_or("/verif".into());
    let scratch = arg(a, "--scratch").expect("--scratch");
    let n: usize = arg(a, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let secs: Option<f64> = arg(a, "--seconds").and_then(|s| s.parse().ok());
    let cfg = match cfgs::all().into_iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let thorough = tier == "thorough";
    let programs = if thorough { 1_000_000_000 } else { cfg.quick_programs };
    let wall = secs.unwrap_or(if thorough { 600.0 } else { 150.0 });
    let mut ws: Vec<W> = vec![];
    for i in 0..n {
        // the debug build is slower: three of eight workers
        let is_chk = i % 8 >= 5;
        let (bin, build) = if is_chk { (&chk, "chk") } else { (&rel, "rel") };
        let case = format!("{scratch}/fail.{i}");
        let out = format!("{scratch}/stat.{i}");
        let child = Command::new(bin)
            .args(["worker", "--check", &id, "--build", build])
            .args(["--seed", &seed.to_string(), "--index", &i.to_string()])
            .args(["--programs", &programs.to_string(), "--wall", &wall.to_string()])
            .args(["--out", &out, "--case-out", &case])
            .stdin(Stdio::null())
            .spawn()
            .expect("worker");
        ws.push(W { child: Some(child), case, out, build });
    }
    let mut hit: Option<usize> = None;
    let mut trouble = false;
    loop {
        let mut alive = false;
        for i in 0..ws.len() {
            let st = match ws[i].child.as_mut() {
                Some(c) => c.try_wait().expect("wait"),
                None => continue,
            };
            match st {
                None => alive = true,
                Some(s) => {
                    ws[i].child = None;
                    if std::path::Path::new(&ws[i].case).exists() {
                        hit = hit.or(Some(i));
                    } else if s.code() != Some(0) {
                        eprintln!("worker {i} ended with {s:?} and reported nothing");
                        trouble = true;
                    }
                }
            }
        }
        if hit.is_some() || !alive {
            break;
        }
        if t0.elapsed().as_secs_f64() > wall + 240.0 {
            eprintln!("some worker does not end");
            trouble = true;
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for w in ws.iter_mut() {
        if let Some(c) = w.child.as_mut() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    let outs: Vec<String> = ws.iter().map(|w| w.out.clone()).collect();
    let (sum, samples) = evid::merge(&outs);
    let mut violations = 0;
    let mut code = 0;
    let mut replay = String::new();
    if let Some(i) = hit {
        violations = 1;
        code = 1;
        let budget = if thorough { 240.0 } else { 100.0 };
        let (bin, build) = if ws[i].build == "chk" { (&chk, "chk") } else { (&rel, "rel") };
        let txt = std::fs::read_to_string(&ws[i].case).unwrap_or_default();
        let found = parse_case(&txt);
        let m = Min { bin: bin.clone(), scratch: scratch.clone(), classes: cfg.classes.join(","), build, t0: Instant::now(), budget, n: 0 };
        let (text, exact) = m.minimise(found);
        let dir = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&dir);
        replay = format!("{dir}/{id}.case");
        std::fs::write(&replay, &text).expect("replay file");
        println!("{}", text.lines().filter(|l| l.starts_with('#') || l.starts_with("class")).collect::<Vec<_>>().join("\n"));
        println!("replays exactly: {exact}");
        println!("VIOLATION property={id} replay={replay}");
    } else if trouble {
        code = 2;
    }
    let e = evid::Ev {
        id: &id,
        tier: &tier,
        seed,
        sum: &sum,
        samples: &samples,
        wall: t0.elapsed().as_secs_f64(),
        violations,
        builds: "rel: opt-level 3, no debug assertions, epoch bags of 64; chk: opt-level 1, debug assertions and overflow checks on, epoch bags of 4",
        workers: n,
    };
    let dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{id}.json"), evid::evidence_json(&e)).expect("evidence");
    if code == 0 {
        println!(
            "{id} held on {} simulated runs ({} programs, {} events, {} distinct non-trivial interleavings) in {:.1} s",
            sum.get("runs").unwrap_or(&0),
            sum.get("programs").unwrap_or(&0),
            sum.get("events").unwrap_or(&0),
            sum.get("distinct_nontrivial").unwrap_or(&0),
            t0.elapsed().as_secs_f64()
        );
    }
    let _ = replay;
    code
}

struct Min {
    bin: String,
    scratch: String,
    classes: String,
    build: &'static str,
    t0: Instant,
    budget: f64,
    n: u64,
}

impl Min {
    fn over(&self) -> bool {
        self.t0.elapsed().as_secs_f64() > self.budget
    }

    /// Does this case still fail (with the same class)? Returns the case as it failed.
    fn fails(&mut self, c: &Case, tries: u64, class: &str) -> Option<Case> {
        self.n += 1;
        let i = format!("{}/min.in", self.scratch);
        let o = format!("{}/min.out", self.scratch);
        let _ = std::fs::remove_file(&o);
        std::fs::write(&i, case_text(c)).ok()?;
        let mut ch = Command::new(&self.bin)
            .args(["replay", "--case", &i, "--case-out", &o, "--tries", &tries.to_string(), "--classes", &self.classes])
            .args(["--build", self.build, "--dog", "4", "--wall", "6"])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let t = Instant::now();
        loop {
            if let Ok(Some(_)) = ch.try_wait() {
                break;
            }
            if t.elapsed().as_secs_f64() > 20.0 {
                let _ = ch.kill();
                let _ = ch.wait();
                return None;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        let txt = std::fs::read_to_string(&o).ok()?;
        let r = parse_case(&txt);
        if r.class == class {
            Some(r)
        } else {
            None
        }
    }

    fn minimise(mut self, found: Case) -> (String, bool) {
        let class = found.class.clone();
        let mut best = match self.fails(&found, 0, &class) {
            Some(c) => c,
            None => match self.fails(&found, 2000, &class) {
                Some(c) => c,
                None => return (case_text(&found), false),
            },
        };
        // faults and guards first, then whole threads, then operations in shrinking chunks
        let mut progress = true;
        let mut tries = 150;
        while progress && !self.over() {
            progress = false;
            for t in (0..best.prog.tasks.len()).rev() {
                let mut c = best.clone();
                c.prog.tasks.remove(t);
                if c.prog.long.len() > t + 1 {
                    c.prog.long.remove(t + 1);
                }
                for x in c.prog.private.iter_mut() {
                    if *x as usize == t + 1 {
                        *x = 255;
                    } else if *x != 255 && *x as usize > t + 1 {
                        *x -= 1;
                    }
                }
                c.sched.switches.clear();
                if let Some(x) = self.fails(&c, tries, &class) {
                    best = x;
                    progress = true;
                }
                if self.over() {
                    break;
                }
            }
            for list in 0..best.prog.tasks.len() + 2 {
                let get = |c: &Case| -> Vec<OpX> {
                    match list {
                        0 => c.prog.post.clone(),
                        1 => c.prog.pre.clone(),
                        i => c.prog.tasks[i - 2].clone(),
                    }
                };
                if list >= best.prog.tasks.len() + 2 {
                    break;
                }
                let mut chunk = get(&best).len().max(1);
                loop {
                    let mut at = 0;
                    while at < get(&best).len() && !self.over() {
                        let mut v = get(&best);
                        let end = (at + chunk).min(v.len());
                        v.drain(at..end);
                        let mut c = best.clone();
                        match list {
                            0 => c.prog.post = v,
                            1 => c.prog.pre = v,
                            i => c.prog.tasks[i - 2] = v,
                        }
                        // the prefix and the suffix do not move the schedule's event numbers
                        // unless the tree's shape changes: try the schedule as it is, then others
                        match self.fails(&c, tries, &class) {
                            Some(x) => {
                                best = x;
                                progress = true;
                            }
                            None => at += chunk,
                        }
                    }
                    if chunk == 1 || self.over() {
                        break;
                    }
                    chunk = chunk.div_ceil(2);
                }
            }
            for t in 0..best.prog.tasks.len() {
                for j in 0..best.prog.tasks[t].len() {
                    if self.over() {
                        break;
                    }
                    let o = best.prog.tasks[t][j];
                    if o.rep != 0 {
                        let mut c = best.clone();
                        c.prog.tasks[t][j].rep = 0;
                        if let Some(x) = self.fails(&c, 20, &class) {
                            best = x;
                            progress = true;
                        }
                    }
                    if o.oom != 0 || o.weak != 0 || o.panic != 0 || o.stall.is_some() || o.nest.is_some() {
                        let mut c = best.clone();
                        c.prog.tasks[t][j] = OpX { oom: 0, weak: 0, panic: 0, stall: None, nest: None, ..o };
                        if let Some(x) = self.fails(&c, tries, &class) {
                            best = x;
                            progress = true;
                        }
                    }
                }
            }
            tries = 60;
        }
        // the schedule: drop context switches
        let mut chunk = best.sched.switches.len().max(1);
        let t1 = Instant::now();
        loop {
            let mut at = 0;
            while at < best.sched.switches.len() && t1.elapsed().as_secs_f64() < 40.0 {
                let mut c = best.clone();
                let end = (at + chunk).min(c.sched.switches.len());
                c.sched.switches.drain(at..end);
                match self.fails(&c, 0, &class) {
                    Some(x) if x.sched.switches.len() < best.sched.switches.len() => best = x,
                    _ => at += chunk,
                }
            }
            if chunk == 1 || t1.elapsed().as_secs_f64() >= 40.0 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        // exact: twice the same failure with the same event hash
        let e1 = self.fails(&best, 0, &class);
        let e2 = self.fails(&best, 0, &class);
        let exact = match (&e1, &e2) {
            (Some(x), Some(y)) => x.hash == y.hash && x.msg == y.msg,
            _ => false,
        };
        if let Some(x) = e1 {
            best = x;
        }
        (case_text(&best), exact)
    }
}

/// `show-replay <file> --rel .. --chk ..`: run a replay file with the build it names.
pub fn show_replay(a: &[String]) -> i32 {
    let file = a[2].clone();
    let c = parse_case(&std::fs::read_to_string(&file).expect("replay file"));
    let bin = if c.build == "chk" { arg(a, "--chk") } else { arg(a, "--rel") }.expect("--rel/--chk");
    let out = format!("{}/replayed", arg(a, "--scratch").expect("--scratch"));
    let classes = cfgs::all().into_iter().find(|x| x.id == c.check).map(|x| x.classes.join(",")).unwrap_or_default();
    let _ = Command::new(bin).args(["replay", "--case", &file, "--case-out", &out, "--classes", &classes]).status();
    match std::fs::read_to_string(&out) {
        Ok(t) => {
            let r = parse_case(&t);
            println!("{t}");
            println!("same event hash as recorded: {}", r.hash == c.hash);
            println!("VIOLATION property={} replay={file}", c.check);
            1
        }
        Err(_) => {
            println!("the replay file does not fail on this tree");
            0
        }
    }
}
