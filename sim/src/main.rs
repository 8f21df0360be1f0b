mod case;
mod cfgs;
mod evid;
mod gen;
mod hist;
mod orch;
mod run;

use case::*;
use gen::*;
use rt::Strat;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::SeqCst};

struct Ga;
unsafe impl GlobalAlloc for Ga {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if rt::wants_default(l.size(), l.align()) {
            return rt::sim_alloc(l.size(), l.align(), rt::rt().default_owner);
        }
        if rt::wants_struct() {
            return rt::sim_alloc(l.size(), l.align(), rt::STRUCT_OWNER);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if rt::in_arena(p as usize) {
            return rt::sim_free(p as usize, l.size(), l.align(), rt::rt().default_owner);
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if rt::wants_default(l.size(), l.align()) || rt::wants_struct() {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            return p;
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if rt::in_arena(p as usize) {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
            return q;
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GA: Ga = Ga;

extern "C" {
    fn _exit(c: i32) -> !;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut u8) -> i32;
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
    fn pause() -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

// ------------------------------------------------------------- fatal reporting

struct Cur {
    prog: *const Program,
    cap1: u64,
    check: String,
    build: String,
    out: String,
}
static mut CUR: Cur = Cur { prog: std::ptr::null(), cap1: 0, check: String::new(), build: String::new(), out: String::new() };
static SIG: AtomicI32 = AtomicI32::new(0);
static BEAT: AtomicU64 = AtomicU64::new(0);
static DOG: AtomicU64 = AtomicU64::new(120);

#[allow(static_mut_refs)]
fn cur() -> &'static mut Cur {
    unsafe { &mut CUR }
}

/// Write the case file for the run in progress.
fn save_case(class: &str, msg: &str, switches: Vec<rt::Switch>, hash: u64) {
    let c = cur();
    let p = if c.prog.is_null() { Program::default() } else { unsafe { (*c.prog).clone() } };
    let first = switches.iter().find(|s| s.task == 0).map(|s| s.to).unwrap_or(1);
    let case = Case {
        check: c.check.clone(),
        build: c.build.clone(),
        class: class.into(),
        msg: msg.into(),
        hash: format!("{hash:016x}"),
        prog: p,
        sched: Sched { first, cap1: c.cap1, switches },
    };
    let _ = std::fs::write(&c.out, case_text(&case));
}

fn fail_hook(class: &str, msg: &str) -> ! {
    let r = rt::rt();
    r.track_default = false;
    if class == "harness" {
        eprintln!("simulator problem: {msg}");
        unsafe { _exit(70) }
    }
    let sw = r.trace.clone();
    save_case(class, msg, sw, r.hash);
    unsafe { _exit(3) }
}

extern "C" fn on_signal(sig: i32) {
    // runs on the crashed thread: leave everything to the reporter thread
    if SIG.swap(sig, SeqCst) != 0 {
        // the reporter crashed as well
        unsafe { _exit(4) }
    }
    loop {
        unsafe {
            pause();
        }
    }
}

fn install_crash_reporting() {
    unsafe {
        for s in [11, 7, 4, 8, 6] {
            let a = SigAction { handler: on_signal as *const () as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
            sigaction(s, &a, std::ptr::null_mut());
        }
    }
    std::thread::Builder::new()
        .spawn(|| {
            let mut last = (u64::MAX, 0u64);
            let mut still = 0u64;
            loop {
                std::thread::sleep(std::time::Duration::from_millis(50));
                let s = SIG.load(SeqCst);
                if s != 0 {
                    let what = match s {
                        11 => "SIGSEGV: wild memory access or stack overflow",
                        7 => "SIGBUS: wild memory access",
                        4 => "SIGILL: the process trapped",
                        6 => "SIGABRT: the process aborted",
                        _ => "the process was killed by a signal",
                    };
                    fail_hook("crash", what);
                }
                let now = (BEAT.load(SeqCst), 0);
                if now == last {
                    still += 1;
                    if still / 20 >= DOG.load(SeqCst) {
                        fail_hook("hang", "an operation does not finish (no progress on the wall clock, alone on its processor)");
                    }
                } else {
                    still = 0;
                    last = now;
                }
            }
        })
        .expect("reporter");
}

fn pin_cpu(i: usize) {
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
    // only when the whole machine is ours to divide
    let mut m = [0u64; 16];
    let c = i % n;
    m[c / 64] = 1 << (c % 64);
    unsafe {
        sched_setaffinity(0, 128, m.as_ptr());
    }
}

// -------------------------------------------------------------------- running

pub struct Totals {
    pub runs: u64,
    pub programs: u64,
    pub seq_programs: u64,
    pub events: u64,
    pub ops: u64,
    pub panics: u64,
    pub racy: u64,
    pub late_drops: u64,
    pub cnt: hist::Counts,
    pub inter: HashSet<u64>,
    pub inter_racy: HashSet<u64>,
    pub facade: [u64; subject::FACADES],
    pub strat: [u64; 4],
}

impl Totals {
    fn new() -> Totals {
        Totals {
            runs: 0,
            programs: 0,
            seq_programs: 0,
            events: 0,
            ops: 0,
            panics: 0,
            racy: 0,
            late_drops: 0,
            cnt: hist::Counts { keys_checked: 0, undecided: 0, empties_checked: 0, stats_checked: 0, hb_pairs: 0 },
            inter: HashSet::new(),
            inter_racy: HashSet::new(),
            facade: [0; subject::FACADES],
            strat: [0; 4],
        }
    }
}

fn one_run(p: &Program, ctl: run::RunCtl, cnt: &mut hist::Counts, classes: &[String]) -> run::Out {
    BEAT.fetch_add(1, SeqCst);
    cur().prog = p;
    cur().cap1 = ctl.sched.cap1;
    struct S<T>(T);
    unsafe impl<T> Send for S<T> {}
    let mut slot: Option<run::Out> = None;
    let args = S((p as *const Program as usize, Some(ctl), cnt as *mut hist::Counts as usize, classes as *const [String], &mut slot as *mut _ as usize));
    let h = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            let a = args;
            let S((p, ctl, cnt, classes, slot)) = a;
            // this thread is joined below, before any of these go away
            unsafe {
                let out = run::drive(&*(p as *const Program), ctl.unwrap(), &mut *(cnt as *mut hist::Counts), &*classes);
                *(slot as *mut Option<run::Out>) = Some(out);
            }
        })
        .expect("spawn");
    if h.join().is_err() {
        let m = run::PANIC_MSG.with(|m| m.borrow().clone());
        eprintln!("simulator problem: driver thread panicked {m}");
        unsafe { _exit(70) }
    }
    // the epoch collector forgets the run
    for _ in 0..20 {
        crossbeam_epoch::pin().flush();
    }
    slot.unwrap()
}

fn mix(a: u64, b: u64) -> u64 {
    (a ^ b.wrapping_mul(0x9e3779b97f4a7c15)).wrapping_mul(0xbf58476d1ce4e5b9) ^ (a >> 29)
}

fn phash(p: &Program) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in program_text(p).bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn note(t: &mut Totals, ph: u64, p: &Program, o: &run::Out, kind: usize) {
    t.runs += 1;
    t.events += o.total;
    t.ops += o.ops;
    t.panics += o.panics;
    t.late_drops += o.bad_drops;
    t.strat[kind] += 1;
    for f in &p.facades {
        t.facade[*f as usize] += 1;
    }
    let h = mix(ph, o.inter);
    t.inter.insert(h);
    // a sequential history is distinct by its program; it is non-trivial when it changes the tree
    if o.racy {
        t.racy += 1;
        t.inter_racy.insert(h);
    }
}

fn failed(o: &run::Out) -> ! {
    if let Err((class, msg)) = &o.verdict {
        save_case(class, msg, o.switches.clone(), o.hash);
    }
    unsafe { _exit(3) }
}

fn learn_layouts() {
    // which block sizes the tree asks its allocator for
    let mut p = Program { facades: vec![subject::F_SIM], long: vec![false; 2], uniq: true, ..Default::default() };
    for i in 0..60usize {
        p.pre.push(ox(Op::Insert(i, i)));
        p.pre.push(ox(Op::Insert(i << 32, i)));
    }
    let h = std::thread::spawn(move || {
        let mut cnt = Totals::new().cnt;
        let none = vec!["none".to_string()];
        let ctl = run::RunCtl { strat: Strat::Plan, sched: Sched::default(), rng: 1, record_kinds: false };
        run::drive(&p, ctl, &mut cnt, &none);
        let mut v: Vec<(usize, usize)> = rt::rt().allocs.iter().filter(|a| a.owner != rt::STRUCT_OWNER).map(|a| (a.size, a.align)).collect();
        v.sort();
        v.dedup();
        v
    });
    let v = h.join().unwrap_or_default();
    rt::rt().default_layouts = v;
}

fn boot(check: &str, build: &str, out: &str) {
    cur().check = check.into();
    cur().build = build.into();
    cur().out = out.into();
    rt::init(fail_hook);
    install_crash_reporting();
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        run::PANIC_MSG.with(|p| *p.borrow_mut() = m);
    }));
    learn_layouts();
    rt::reset_run();
    let r = rt::rt();
    r.probes = [0; rt::NPROBE];
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn worker(a: &[String]) {
    let id = arg(a, "--check").unwrap();
    let seed: u64 = arg(a, "--seed").unwrap().parse().unwrap();
    let index: u64 = arg(a, "--index").unwrap().parse().unwrap();
    let programs: u64 = arg(a, "--programs").unwrap().parse().unwrap();
    let wall: f64 = arg(a, "--wall").unwrap().parse().unwrap();
    let out = arg(a, "--out").unwrap();
    let case = arg(a, "--case-out").unwrap();
    let build = arg(a, "--build").unwrap();
    let verbose = a.iter().any(|x| x == "--hashes");
    pin_cpu(index as usize);
    boot(&id, &build, &case);
    let c = cfgs::all().into_iter().find(|c| c.id == id).expect("unknown check");
    let classes: Vec<String> = c.classes.iter().map(|s| s.to_string()).collect();
    let start = std::time::Instant::now();
    let mut t = Totals::new();
    let mut samples: Vec<String> = vec![];
    let mut saved = 0.0;
    let idn: u64 = id[1..].parse().unwrap();
    for pi in 0..programs {
        if start.elapsed().as_secs_f64() > wall {
            break;
        }
        if start.elapsed().as_secs_f64() > saved + if saved < 2.0 { 0.2 } else { 3.0 } {
            // in case this worker does not end by itself
            saved = start.elapsed().as_secs_f64();
            evid::write_worker(&out, &t, &samples, saved);
        }
        let mut r = Rng::new(seed, index, pi.wrapping_mul(64) + idn);
        let p = gen_program(&mut r, &c);
        let ph = phash(&p);
        t.programs += 1;
        t.seq_programs += p.tasks.is_empty() as u64;
        // sequential dry run
        let ctl = run::RunCtl { strat: Strat::Plan, sched: Sched { first: 1, cap1: 2_000_000, switches: vec![] }, rng: 1, record_kinds: true };
        let o = one_run(&p, ctl, &mut t.cnt, &classes);
        note(&mut t, ph, &p, &o, 3);
        if o.verdict.is_err() {
            failed(&o);
        }
        if verbose {
            println!("{pi} dry {:016x} {:016x} {}", ph, o.hash, o.total);
        }
        if p.tasks.is_empty() {
            t.inter_racy.insert(ph);
            continue;
        }
        let d = Dry { total: o.total, task_ev: o.task_ev.clone(), interesting: interesting(&o.kinds) };
        for si in 0..c.schedules {
            let (strat, sched) = gen_sched(&mut r, &p, &d);
            let kind = match strat {
                Strat::Plan => 0,
                Strat::Rand(_) => 1,
                Strat::Pct(_) => 2,
            };
            let ctl = run::RunCtl { strat, sched, rng: r.u(), record_kinds: false };
            let o = one_run(&p, ctl, &mut t.cnt, &classes);
            note(&mut t, ph, &p, &o, kind);
            if verbose {
                println!("{pi} {si} {:016x} {:016x} {} {}", o.inter, o.hash, o.total, o.switches.len());
            }
            if o.verdict.is_err() {
                failed(&o);
            }
            if samples.len() < 2 && o.racy && o.switches.len() < 30 {
                cur().prog = &p;
                let s = Sched { first: 1, cap1: 0, switches: o.switches.clone() };
                samples.push(format!("{}{}", program_text(&p), sched_text(&s)));
            }
        }
    }
    evid::write_worker(&out, &t, &samples, start.elapsed().as_secs_f64());
}

/// Replay a case file exactly; with `--tries n`, look for the same class of failure under
/// n further schedules. Exit 3: failed again (and the case file `--case-out` says how).
fn replay(a: &[String]) {
    let file = arg(a, "--case").unwrap();
    let txt = std::fs::read_to_string(&file).expect("case file");
    let c = parse_case(&txt);
    let out = arg(a, "--case-out").unwrap_or("/dev/null".into());
    let tries: u64 = arg(a, "--tries").map(|x| x.parse().unwrap()).unwrap_or(0);
    let wall: f64 = arg(a, "--wall").map(|x| x.parse().unwrap()).unwrap_or(1e9);
    DOG.store(arg(a, "--dog").map(|x| x.parse().unwrap()).unwrap_or(30), SeqCst);
    let classes: Vec<String> =
        arg(a, "--classes").map(|x| x.split(',').map(|s| s.to_string()).collect()).unwrap_or_default();
    let build = arg(a, "--build").unwrap_or(c.build.clone());
    boot(&c.check, &build, &out);
    let mut cnt = Totals::new().cnt;
    let t0 = std::time::Instant::now();
    let ctl = run::RunCtl { strat: Strat::Plan, sched: c.sched.clone(), rng: 1, record_kinds: false };
    let o = one_run(&c.prog, ctl, &mut cnt, &classes);
    let verdict = |o: &run::Out| {
        if o.verdict.is_err() {
            failed(o);
        }
    };
    verdict(&o);
    if tries > 0 {
        let ctl = run::RunCtl {
            strat: Strat::Plan,
            sched: Sched { first: 1, cap1: 2_000_000, switches: vec![] },
            rng: 1,
            record_kinds: true,
        };
        let o = one_run(&c.prog, ctl, &mut cnt, &classes);
        verdict(&o);
        let d = Dry { total: o.total, task_ev: o.task_ev.clone(), interesting: interesting(&o.kinds) };
        let mut r = Rng::new(77, 1, phash(&c.prog));
        if c.prog.tasks.len() > 1 {
            for _ in 0..tries {
                if t0.elapsed().as_secs_f64() > wall {
                    break;
                }
                let (strat, sched) = gen_sched(&mut r, &c.prog, &d);
                let ctl = run::RunCtl { strat, sched, rng: r.u(), record_kinds: false };
                let o = one_run(&c.prog, ctl, &mut cnt, &classes);
                verdict(&o);
            }
        }
    }
    println!("no failure; event hash {:016x}", o.hash);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(&a),
        Some("replay") => replay(&a),
        Some("check") => std::process::exit(orch::check(&a)),
        Some("show-replay") => std::process::exit(orch::show_replay(&a)),
        _ => {
            eprintln!("usage: congee-sim check|worker|replay|show-replay ...");
            std::process::exit(64);
        }
    }
}
