//! Executes one simulated run: builds the trees, plays the program under a schedule, checks.
use crate::case::*;
use crate::hist::*;
use rt::{Phase, Strat};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use subject::Tree;

pub struct Injected;

thread_local! {
    pub static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub struct Out {
    pub verdict: Result<(), Bad>,
    pub total: u64,
    pub task_ev: Vec<u64>,
    pub kinds: Vec<Vec<u8>>,
    pub hash: u64,
    pub inter: u64,
    pub racy: bool,
    pub switches: Vec<rt::Switch>,
    pub ops: u64,
    pub panics: u64,
    pub bad_drops: u64,
}

/// (tree, generation, key, value)
type Drains = Arc<Mutex<Vec<(u8, u32, usize, usize)>>>;

/// A place for a tree. Shared trees are replaced by the driver only, private ones by their thread.
struct Slot {
    tree: UnsafeCell<Option<Box<dyn Tree>>>,
    gen: UnsafeCell<u32>,
}

pub struct Ctx<'a> {
    slots: Vec<Slot>,
    prog: &'a Program,
    drains: Drains,
}

impl Ctx<'_> {
    fn make(&self, ti: usize, gen: u32) {
        let d = self.drains.clone();
        let cb = Box::new(move |k: usize, v: usize| {
            let r = rt::rt();
            let me = r.cur;
            let was = r.tasks[me].in_tree;
            r.tasks[me].in_tree = false;
            rt::user_point();
            d.lock().unwrap().push((ti as u8, gen, k, v));
            let r = rt::rt();
            r.tasks[me].in_tree = was;
        });
        let me = rt::rt().cur;
        rt::rt().tasks[me].in_make = true;
        let t = subject::make(self.prog.facades[ti], owner_gen(ti, gen), cb, &|| rt::rt().tasks[me].in_tree = false);
        rt::rt().tasks[me].in_make = false;
        unsafe {
            *self.slots[ti].tree.get() = Some(t);
            *self.slots[ti].gen.get() = gen;
        }
    }
    fn gen(&self, ti: usize) -> u32 {
        unsafe { *self.slots[ti].gen.get() }
    }
    fn tree(&self, ti: usize) -> &dyn Tree {
        unsafe { (*self.slots[ti].tree.get()).as_deref().expect("tree") }
    }
    fn take(&self, ti: usize) -> Option<Box<dyn Tree>> {
        unsafe { (*self.slots[ti].tree.get()).take() }
    }
    /// May this thread use this tree now?
    fn mine(&self, ti: usize, me: usize, renew: bool) -> bool {
        match self.prog.private.get(ti).copied().unwrap_or(0) {
            0 => me == 0 || !renew,
            p => me == 0 || p as usize == me,
        }
    }
    fn drained(&self, ti: usize, gen: u32) -> Vec<(usize, usize)> {
        let mut v: Vec<(usize, usize)> =
            self.drains.lock().unwrap().iter().filter(|d| d.0 == ti as u8 && d.1 == gen).map(|d| (d.2, d.3)).collect();
        v.sort();
        v
    }
    fn check_drain(&self, ti: usize, gen: u32, m: &BTreeMap<usize, usize>) -> Result<(), Bad> {
        let f = self.prog.facades[ti];
        if !subject::has_drainer(f) {
            return Ok(());
        }
        let got = self.drained(ti, gen);
        let want: Vec<(usize, usize)> = m.iter().map(|(a, b)| (*a, *b)).collect();
        if got != want {
            let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
            let missing: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
            return Err(("drain", format!(
                "drainer was called {} times for {} entries; missing {:x?}, unexpected {:x?}", got.len(), want.len(), missing, extra)));
        }
        Ok(())
    }
    /// One operation that ran alone on its tree.
    fn alone(&self, r: &Rec, m: &mut BTreeMap<usize, usize>) -> Result<(), Bad> {
        if let Res::Renewed(g) = r.res {
            let ti = (r.ox.tree as usize).min(self.slots.len() - 1);
            let res = self.check_drain(ti, g, m);
            m.clear();
            return res;
        }
        seq_check(r, m)
    }
}

/// Each generation of a tree has its own allocator.
fn owner_gen(ti: usize, gen: u32) -> u32 {
    ti as u32 + 1 + 1000 * gen
}
struct SendBox<T>(T);
unsafe impl<T> Send for SendBox<T> {}
unsafe impl<T> Sync for SendBox<T> {}

fn parse_stats(s: &str, max_nodes: usize) -> Option<Res> {
    let mut n = StatNums { max_nodes, ..Default::default() };
    let mut kinds = [0usize; 4];
    let mut levels = 0;
    let mut ok = (false, false);
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("KV count: ") {
            n.kv = x.trim().parse().ok()?;
            ok.0 = true;
        }
        if let Some(x) = l.strip_prefix("Overall node count: ") {
            let (a, b) = x.split_once(", entry count: ")?;
            n.nodes = a.trim().parse().ok()?;
            n.entries = b.trim().parse().ok()?;
            ok.1 = true;
        }
        if let Some(x) = l.strip_prefix("Load factor: ") {
            n.load = x.split_whitespace().next().and_then(|x| x.parse().ok());
        }
        if let Some(x) = l.strip_prefix("Active memory usage: ") {
            n.mb = x.split_whitespace().next().and_then(|x| x.parse().ok());
        }
        if l.starts_with("Level: ") {
            let c: Vec<usize> = l.split("||").skip(1).filter_map(|c| c.split(':').nth(1)?.split(',').next()?.trim().parse().ok()).collect();
            let f: Vec<f64> = l.split("||").skip(1).filter_map(|c| c.split(':').nth(1)?.split(',').nth(1)?.trim().parse().ok()).collect();
            let level = l[7..].split_whitespace().next().and_then(|x| x.parse().ok());
            if let (4, 4, Some(level)) = (c.len(), f.len(), level) {
                n.levels.push((level, [0, 1, 2, 3].map(|i| (c[i], f[i]))));
            }
            if c.len() != 4 {
                levels = usize::MAX;
                continue;
            }
            levels = levels.saturating_add(1);
            for i in 0..4 {
                kinds[i] += c[i];
            }
        }
    }
    if levels > 0 && levels != usize::MAX {
        n.kinds = Some(kinds);
        if levels != n.levels.len() {
            n.levels.clear();
        }
    }
    if ok == (true, true) {
        Some(Res::Stats(Box::new(n)))
    } else {
        None
    }
}

#[allow(clippy::too_many_arguments)]
pub fn exec(
    ctx: &Ctx,
    me: usize,
    idx: usize,
    o: &OpX,
    guards: &mut [Option<congee_epoch::Guard>],
    long: bool,
    seen: &mut HashMap<(u8, usize), usize>,
    extra: &mut Vec<Rec>,
) -> Rec {
    let ti = (o.tree as usize).min(ctx.slots.len() - 1);
    let allowed = ctx.mine(ti, me, matches!(o.op, Op::Renew));
    let r = rt::rt();
    let driver = me == 0;
    if driver {
        r.solo_ev = 0;
    } else {
        rt::boundary_point();
    }
    let r = rt::rt();
    r.seq += 1;
    let inv = r.seq;
    let t = &mut r.tasks[me];
    t.vc[me] += 1;
    let inv_clock = t.vc[me];
    t.op_ev = 0;
    if o.rep > 0 {
        // no spinning: it gets on
        t.since = 0;
    }
    t.op_serial += 1;
    t.op_allocs = 0;
    t.op_oom_fired = 0;
    t.oom_mask = o.oom;
    t.weak_mask = o.weak;
    t.op_weak = 0;
    t.stall_at = if driver { u64::MAX } else { o.stall.unwrap_or(u64::MAX) };
    t.in_op = true;

    let mut calls: Vec<Call> = vec![];
    let mut ncall = 0u32;
    let panic_at = o.panic;
    let mut enter = |arg: Option<usize>, f: &dyn Fn(Option<usize>) -> Option<usize>| -> Option<usize> {
        let r = rt::rt();
        let was = r.tasks[me].in_tree;
        r.tasks[me].in_tree = false;
        rt::user_point();
        ncall += 1;
        if ncall == panic_at {
            // unwinds through the tree; in_tree is cleared by the caller
            std::panic::resume_unwind(Box::new(Injected));
        }
        if let Some((nt, k, v)) = o.nest {
            // only towards higher tree numbers, so that callers cannot wait for each other
            let nt = nt as usize;
            if nt > ti && nt < ctx.slots.len() && ctx.mine(nt, me, false) {
                let t2 = ctx.tree(nt);
                let mut ox2 = ox(match v {
                    Some(v) => Op::Insert(k, v),
                    None => Op::Get(k),
                });
                ox2.tree = nt as u8;
                let r = rt::rt();
                r.seq += 1;
                let (inv, inv_clock) = (r.seq, r.tasks[me].vc[me]);
                let fired = r.tasks[me].op_oom_fired;
                r.tasks[me].in_tree = true;
                let g2 = t2.pin();
                let res = match v {
                    Some(v) => match t2.insert(k, v, &g2) {
                        Ok(o) => Res::Ins(o),
                        Err(_) => Res::Oom,
                    },
                    None => Res::Val(t2.get(k, &g2)),
                };
                drop(g2);
                let r = rt::rt();
                r.tasks[me].in_tree = false;
                r.seq += 1;
                let oom_fired = r.tasks[me].op_oom_fired - fired;
                extra.push(Rec { task: me, idx, ox: ox2, cas_old: 0, inv, ret: r.seq, inv_clock, vc: r.tasks[me].vc, res, calls: vec![], oom_fired });
            }
        }
        let ret = f(arg);
        calls.push(Call { arg, ret, vc: rt::rt().tasks[me].vc });
        rt::rt().tasks[me].in_tree = was;
        ret
    };
    let ap = |f: F, arg: Option<usize>| -> Option<usize> {
        match f {
            F::Set(v) => Some(v),
            F::Add(d) => Some(arg.unwrap_or(0).wrapping_add(d)),
            F::Same(v) => Some(arg.unwrap_or(v)),
            F::Del => None,
            F::DelOdd(v) => match arg {
                Some(a) if a & 1 == 1 => None,
                Some(_) => Some(v),
                None => Some(v),
            },
        }
    };
    let mut cas_old = 0;
    let mut buf: Vec<(usize, usize)> = vec![];
    if let Op::Range(_, _, n) = o.op {
        buf = vec![(0xEEEE_EEEE, 0xEEEE_EEEE); n];
    }
    if let Op::Cas(k, old, _) = o.op {
        cas_old = if old == SEEN { seen.get(&(ti as u8, k)).copied().unwrap_or(0) } else { old };
    }
    if let Op::Gc(n) = o.op {
        for g in guards.iter_mut() {
            *g = None;
        }
        for _ in 0..n {
            congee_epoch::pin().flush();
        }
    }
    let gi = if ctx.prog.xguard { 0 } else { ti.min(guards.len() - 1) };
    let needs = allowed && !matches!(o.op, Op::Gc(_) | Op::Stats | Op::Renew);
    if needs && guards[gi].is_none() {
        // any guard of the collector will do
        guards[gi] = Some(if ctx.prog.xguard { congee_epoch::pin() } else { ctx.tree(ti).pin() });
    }
    let dummy;
    let g: &congee_epoch::Guard = match guards[gi].as_ref() {
        Some(g) => g,
        None => {
            dummy = unsafe { congee_epoch::unprotected() };
            dummy
        }
    };
    rt::rt().tasks[me].in_tree = true;
    let res = catch_unwind(AssertUnwindSafe(|| {
        if !allowed {
            return Res::Unit;
        }
        if let Op::Renew = o.op {
            let g = ctx.gen(ti);
            drop(ctx.take(ti));
            ctx.make(ti, g + 1);
            return Res::Renewed(g);
        }
        let tree = ctx.tree(ti);
        match o.op {
        Op::Get(k) => Res::Val(tree.get(k, g)),
        Op::Insert(k, v) => match tree.insert(k, v, g) {
            Ok(o) => Res::Ins(o),
            Err(_) => Res::Oom,
        },
        Op::Remove(k) => Res::Val(tree.remove(k, g)),
        Op::Cip(k, f) => Res::Cip(tree.cip(k, &mut |a| enter(Some(a), &|x| ap(f, x)), g)),
        Op::Coi(k, f) => match tree.coi(k, &mut |a| enter(a, &|x| ap(f, x)).unwrap_or(0), g) {
            Ok(o) => Res::Ins(o),
            Err(_) => Res::Oom,
        },
        Op::Cas(k, _, n) => Res::Cas(tree.cas(k, cas_old, n, g)),
        Op::Range(lo, hi, _) => {
            let n = tree.range(lo, hi, &mut buf, g);
            if n > buf.len() {
                rt::fatal("scan", &format!("range returned {n} with a buffer of {}", buf.len()));
            }
            buf.truncate(n);
            Res::Range(std::mem::take(&mut buf))
        }
        Op::IsEmpty => Res::Bool(tree.is_empty(g)),
        Op::Stats => {
            let owner = owner_of(ctx, ti);
            let (before, from) = (rt::live_blocks(owner), rt::rt().allocs.len());
            let s = tree.stats();
            rt::rt().tasks[me].in_tree = false;
            let new = rt::rt().allocs[from..].iter().filter(|a| a.owner == owner).count();
            parse_stats(&s, before + new).unwrap_or(Res::Unit)
        }
        Op::Gc(_) => Res::Unit,
        Op::Repin | Op::Renew => Res::Unit,
        }
    }));
    let r = rt::rt();
    r.tasks[me].in_tree = false;
    let res = match res {
        Ok(x) => x,
        Err(p) => {
            if p.downcast_ref::<Injected>().is_some() {
                Res::Panicked
            } else {
                let m = PANIC_MSG.with(|m| m.borrow().clone());
                rt::fatal("panic", &format!("the library panicked in `{}` of {}: {m}", opstr(o), if driver { "the driver".to_string() } else { format!("t{me}") }));
            }
        }
    };
    if matches!(o.op, Op::Repin) {
        if let Some(g) = guards[gi].as_mut() {
            g.repin();
        }
    }
    let t = &mut r.tasks[me];
    t.in_op = false;
    t.stall_at = u64::MAX;
    t.oom_mask = 0;
    let vc = t.vc;
    let oom_fired = t.op_oom_fired;
    r.seq += 1;
    let ret = r.seq;
    if !long {
        for g in guards.iter_mut() {
            *g = None;
        }
    }
    if let Some(k) = op_key(&o.op) {
        let v = match &res {
            Res::Val(v) => *v,
            Res::Ins(_) => match o.op {
                Op::Insert(_, v) => Some(v),
                _ => calls.last().and_then(|c| c.ret),
            },
            Res::Cip(Some((_, n))) => *n,
            Res::Cas(Ok(n)) | Res::Cas(Err(n)) => *n,
            _ => None,
        };
        if let Some(v) = v {
            seen.insert((ti as u8, k), v);
        }
    }
    Rec { task: me, idx, ox: *o, cas_old, inv, ret, inv_clock, vc, res, calls, oom_fired }
}

pub use crossbeam_shim as congee_epoch;
pub mod crossbeam_shim {
    pub use crossbeam_epoch::{pin, unprotected, Guard};
}

pub struct RunCtl {
    pub strat: Strat,
    pub sched: Sched,
    pub rng: u64,
    pub record_kinds: bool,
}

pub fn is_sim_owned(f: u8) -> bool {
    f == subject::F_SIM || f == subject::F_TYPED || f == subject::F_DRAINLESS
}

const DEFAULT_OWNER: u32 = 100;

pub fn universe(p: &Program, tree: u8) -> Vec<usize> {
    let all = || p.pre.iter().chain(p.tasks.iter().flatten());
    let mut ks: Vec<usize> = all().filter(|o| o.tree == tree).filter_map(|o| op_key(&o.op)).collect();
    ks.extend(all().filter_map(|o| o.nest).filter(|n| n.0 == tree).map(|n| n.1));
    ks.sort();
    ks.dedup();
    ks
}

/// Must run on a fresh thread (so that the epoch collector's per-thread state is fresh too).
pub fn drive(prog: &Program, ctl: RunCtl, cnt: &mut Counts, classes: &[String]) -> Out {
    rt::simulated_thread();
    rt::reset_run();
    let nt = prog.facades.len();
    {
        let r = rt::rt();
        r.phase = Phase::Solo;
        r.track_default = true;
        r.default_owner = DEFAULT_OWNER;
        r.judge_stall = classes.iter().any(|c| c == "blocked-by-stalled-reader");
        r.judge_order = classes.iter().any(|c| c == "order");
        r.weak = prog.tasks.iter().flatten().any(|o| o.weak != 0);
        r.rng = ctl.rng | 1;
        r.tasks[0].vc[0] = 1;
    }
    let ctx = Ctx {
        slots: (0..nt).map(|_| Slot { tree: UnsafeCell::new(None), gen: UnsafeCell::new(0) }).collect(),
        prog,
        drains: Arc::new(Mutex::new(Vec::new())),
    };
    for i in 0..nt {
        rt::rt().tasks[0].in_tree = true;
        ctx.make(i, 0);
        rt::rt().tasks[0].in_tree = false;
    }
    let mut models: Vec<BTreeMap<usize, usize>> = vec![BTreeMap::new(); nt];
    let mut out = Out {
        verdict: Ok(()),
        total: 0,
        task_ev: vec![],
        kinds: vec![],
        hash: 0,
        inter: 0,
        racy: false,
        switches: vec![],
        ops: 0,
        panics: 0,
        bad_drops: 0,
    };
    let mut first_bad: Option<Bad> = None;
    let own = |b: &Bad| classes.is_empty() || classes.iter().any(|c| c == b.0);
    macro_rules! note {
        ($e:expr) => {
            if let Err(b) = $e {
                if own(&b) && first_bad.is_none() {
                    first_bad = Some(b);
                }
                true
            } else {
                false
            }
        };
    }
    let mut seen = HashMap::new();
    let dlong = prog.long.first().copied().unwrap_or(false);
    let mut guards: Vec<Option<congee_epoch::Guard>> = (0..nt).map(|_| None).collect();
    let mut broken = false;
    let mut extra: Vec<Rec> = vec![];
    'pre: for (i, o) in prog.pre.iter().enumerate() {
        let r = exec(&ctx, 0, i, o, &mut guards, dlong, &mut seen, &mut extra);
        out.ops += 1;
        out.panics += matches!(r.res, Res::Panicked) as u64;
        for r in extra.drain(..).chain(std::iter::once(r)) {
            let m = &mut models[(r.ox.tree as usize).min(nt - 1)];
            if note!(ctx.alone(&r, m)) {
                broken = true;
                break 'pre;
            }
        }
    }
    for g in guards.iter_mut() {
        *g = None;
    }
    // ---- concurrent phase
    let mut recs: Vec<Rec> = vec![];
    if !prog.tasks.is_empty() && !broken {
        let n = prog.tasks.len();
        {
            let r = rt::rt();
            r.ntasks = n;
            r.strat = ctl.strat.clone();
            r.record_kinds = ctl.record_kinds;
            r.cap1 = ctl.sched.cap1.max(1000);
            r.fair_next = 0;
            for s in &ctl.sched.switches {
                if s.task == 0 || s.task > n || s.to == 0 || s.to > n {
                    continue;
                }
                if s.ev == u64::MAX {
                    r.tasks[s.task].fin_plan = Some(s.to);
                } else {
                    r.tasks[s.task].plan.push((s.ev, s.to));
                }
            }
            for t in r.tasks.iter_mut() {
                t.plan.sort();
            }
        }
        let logs: Vec<Mutex<Vec<Rec>>> = (0..n).map(|_| Mutex::new(vec![])).collect();
        {
            let cl = (&ctx, &logs);
            let p = SendBox(&cl as *const _ as usize);
            let mut hs = vec![];
            for i in 1..=n {
                let p = p.0;
                let h = std::thread::Builder::new()
                    .stack_size(512 << 10)
                    .spawn(move || {
                        type C<'a> = (&'a Ctx<'a>, &'a Vec<Mutex<Vec<Rec>>>);
                        // the driver outlives this thread: it joins it before returning
                        let (ctx, logs): &C = unsafe { &*(p as *const C) };
                        let prog = ctx.prog;
                        rt::park(i);
                        rt::simulated_thread();
                        rt::rt().inside = false;
                        {
                            let mut guards: Vec<Option<congee_epoch::Guard>> = (0..ctx.slots.len()).map(|_| None).collect();
                            let long = prog.long.get(i).copied().unwrap_or(false);
                            let mut seen = HashMap::new();
                            for (j, o) in prog.tasks[i - 1].iter().enumerate() {
                                for n in 0..=o.rep as usize {
                                    let mut o = *o;
                                    if let Op::Insert(_, v) = &mut o.op {
                                        *v ^= n << 33;
                                    }
                                    let mut extra = vec![];
                                    let r = exec(ctx, i, j, &o, &mut guards, long, &mut seen, &mut extra);
                                    let mut l = logs[i - 1].lock().unwrap();
                                    l.extend(extra);
                                    l.push(r);
                                }
                            }
                        }
                        rt::task_done();
                    })
                    .expect("spawn");
                hs.push(h);
            }
            rt::start(ctl.sched.first.clamp(1, n));
            for (i, h) in hs.into_iter().enumerate() {
                rt::unpark(i + 1);
                if h.join().is_err() {
                    rt::fatal("harness", "a simulated thread died");
                }
            }
        }
        let r = rt::rt();
        out.total = r.total;
        out.hash = r.hash;
        out.inter = r.inter;
        out.racy = r.racy;
        out.task_ev = (1..=n).map(|i| r.tasks[i].ev).collect();
        out.switches = r.trace.clone();
        out.kinds = r.kinds[1..=n].to_vec();
        for l in logs {
            recs.extend(l.into_inner().unwrap());
        }
        out.ops += recs.len() as u64;
        out.panics += recs.iter().filter(|r| matches!(r.res, Res::Panicked)).count() as u64;
        // the driver's reads, alone: what the tree holds now
        for ti in 0..nt {
            for k in universe(prog, ti as u8) {
                let mut o = ox(Op::Get(k));
                o.tree = ti as u8;
                recs.push(exec(&ctx, 0, 0, &o, &mut guards, false, &mut seen, &mut extra));
            }
            let mine: Vec<&Rec> = recs.iter().filter(|r| (r.ox.tree as usize).min(nt - 1) == ti).collect();
            if prog.private.get(ti).copied().unwrap_or(0) != 0 {
                // one thread and then the driver: a sequential history
                for r in &mine {
                    if note!(ctx.alone(r, &mut models[ti])) {
                        broken = true;
                        break;
                    }
                }
                continue;
            }
            let bad = note!(check_history(&mine, &models[ti], cnt));
            if prog.uniq && !bad {
                let _ = note!(check_publication(&mine, cnt));
            }
            broken |= bad;
            let m = &mut models[ti];
            m.clear();
            for r in &mine {
                if r.task == 0 {
                    if let (Op::Get(k), Res::Val(Some(v))) = (&r.ox.op, &r.res) {
                        m.insert(*k, *v);
                    }
                }
            }
        }
    }
    // ---- quiescence: every view of the content agrees, and everything still works
    if first_bad.is_none() && !broken {
        let mut views: Vec<OpX> = vec![];
        for ti in 0..nt as u8 {
            let mut v = vec![Op::Range(0, usize::MAX, models[ti as usize].len() + 3), Op::Get(usize::MAX)];
            if !subject::is_u64(prog.facades[ti as usize]) {
                v.push(Op::IsEmpty);
                v.push(Op::Stats);
            }
            for o in v {
                views.push(OpX { tree: ti, ..ox(o) });
            }
        }
        'q: for (pi, ph) in [&views, &prog.post, &views].into_iter().enumerate() {
            for (i, o) in ph.iter().enumerate() {
                if matches!(o.op, Op::Stats) && pi != 1 {
                    settle();
                }
                let r = exec(&ctx, 0, i, o, &mut guards, false, &mut seen, &mut extra);
                out.ops += 1;
                let ti = (o.tree as usize).min(nt - 1);
                for r in extra.drain(..).chain(std::iter::once(r.clone())) {
                    let m = &mut models[(r.ox.tree as usize).min(nt - 1)];
                    if note!(ctx.alone(&r, m)) {
                        break 'q;
                    }
                }
                if let (Res::Stats(st), true, false) = (&r.res, pi != 1, broken) {
                    let nodes = &st.nodes;
                    let owner = owner_of(&ctx, ti as usize);
                    let shared = owner == DEFAULT_OWNER && prog.facades.iter().filter(|f| !is_sim_owned(**f)).count() > 1;
                    let live = rt::live_blocks(owner);
                    if !shared && *nodes != live {
                        let b: Bad = if live > *nodes {
                            ("leak", format!("{live} nodes are allocated but only {nodes} are reachable, nothing pending reclamation"))
                        } else {
                            ("stats", format!("stats counts {nodes} nodes, {live} exist"))
                        };
                        if note!(Err::<(), Bad>(b)) {
                            break 'q;
                        }
                    } else if let (false, Some(have), Some(want)) = (shared, st.kinds, live_kinds(owner)) {
                        if have != want {
                            let b: Bad = ("stats", format!("stats counts {have:?} nodes of the four kinds, {want:?} exist"));
                            if note!(Err::<(), Bad>(b)) {
                                break 'q;
                            }
                        }
                        let bytes: usize = rt::rt().allocs.iter().filter(|a| a.live && a.owner == owner).map(|a| a.size).sum();
                        if st.mb.is_some_and(|m| m != bytes >> 20) {
                            let b: Bad = ("stats", format!("stats reports {:?} Mb, the nodes take {bytes} bytes", st.mb));
                            if note!(Err::<(), Bad>(b)) {
                                break 'q;
                            }
                        }
                    }
                }
            }
        }
    }
    for g in guards.iter_mut() {
        *g = None;
    }
    // ---- destruction
    for ti in 0..nt {
        let t = ctx.take(ti);
        rt::rt().solo_ev = 0;
        rt::rt().tasks[0].in_tree = true;
        let res = catch_unwind(AssertUnwindSafe(|| drop(t)));
        rt::rt().tasks[0].in_tree = false;
        if res.is_err() {
            let m = PANIC_MSG.with(|m| m.borrow().clone());
            rt::fatal("panic", &format!("dropping the tree panicked: {m}"));
        }
        if first_bad.is_some() || broken {
            continue;
        }
        let _ = note!(ctx.check_drain(ti, ctx.gen(ti), &models[ti]));
        let owner = owner_of(&ctx, ti);
        let shared = owner == DEFAULT_OWNER && prog.facades[ti + 1..].iter().any(|f| !is_sim_owned(*f));
        if !shared {
            let live = rt::live_blocks(owner);
            if live != 0 {
                out.bad_drops += 1;
                settle();
                let later = rt::live_blocks(owner);
                let sizes: Vec<usize> = rt::rt().allocs.iter().filter(|a| a.live && a.owner == owner).map(|a| a.size).collect();
                let b: Bad = if later != 0 {
                    ("leak", format!("{later} nodes are never returned to the allocator although the tree is gone and nobody is pinned (sizes {sizes:?})"))
                } else {
                    ("late-free", format!("{live} nodes were still not returned to the allocator when the tree's destructor finished, with nobody pinned"))
                };
                let _ = note!(Err::<(), Bad>(b));
            }
        }
    }
    settle();
    if first_bad.is_none() && !broken {
        // trees that were dropped on the way
        let left: Vec<usize> = rt::rt().allocs.iter().filter(|a| a.live && a.owner != DEFAULT_OWNER).map(|a| a.size).collect();
        if !left.is_empty() {
            let b: Bad = ("leak", format!("nodes of trees that were dropped earlier are never returned to the allocator (sizes {left:?})"));
            let _ = note!(Err::<(), Bad>(b));
        }
    }
    rt::rt().phase = Phase::Off;
    out.verdict = match first_bad {
        Some(b) => Err(b),
        None => Ok(()),
    };
    out
}

/// Live nodes per kind, smallest first, if there are exactly four kinds.
fn live_kinds(owner: u32) -> Option<[usize; 4]> {
    let r = rt::rt();
    let mut sizes: Vec<usize> = r.default_layouts.iter().map(|l| l.0).collect();
    sizes.sort();
    sizes.dedup();
    if sizes.len() != 4 {
        return None;
    }
    let mut n = [0; 4];
    for a in r.allocs.iter().filter(|a| a.live && a.owner == owner) {
        n[sizes.iter().position(|s| *s == a.size)?] += 1;
    }
    Some(n)
}

fn owner_of(c: &Ctx, ti: usize) -> u32 {
    if is_sim_owned(c.prog.facades[ti]) {
        owner_gen(ti, c.gen(ti))
    } else {
        DEFAULT_OWNER
    }
}

/// Let the epoch collector run everything that is due. Alone, nobody pinned.
pub fn settle() {
    for _ in 0..24 {
        congee_epoch::pin().flush();
    }
}
