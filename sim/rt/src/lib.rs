//! The simulator's runtime. It owns every source of nondeterminism of a run:
//! which thread runs next (at every memory access of the code under test),
//! what the allocator answers, and where memory lives.
//!
//! Not instrumented itself. Exactly one thread runs at any time during a run
//! (the others are parked on a futex), so the state is a plain static.
#![allow(static_mut_refs)]

pub mod tsan;

use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 8; // index 0 is the driver, 1.. are the simulated threads
pub const ARENA_BASE: usize = 0x2a00_0000_0000;
pub const ARENA_SIZE: usize = 64 << 20;
const GRANULES: usize = ARENA_SIZE / 8;
const REDZONE: usize = 64;

pub const K_READ: u8 = 0;
pub const K_WRITE: u8 = 1;
pub const K_ALOAD: u8 = 2;
pub const K_ASTORE: u8 = 3;
pub const K_ARMW: u8 = 4;
pub const K_ALLOC: u8 = 5;
pub const K_FREE: u8 = 6;
pub const K_USER: u8 = 7;
pub const K_BOUND: u8 = 8;
pub const NKIND: usize = 9;
const FAIR_QUANTUM: u64 = 60_000;
pub const KIND_NAMES: [&str; NKIND] =
    ["read", "write", "atomic-load", "atomic-store", "atomic-rmw", "alloc", "free", "callback", "operation-boundary"];

pub type Vc = [u32; MAXT];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Phase {
    Off,
    Solo,
    Conc,
}

#[derive(Clone)]
pub enum Strat {
    /// Follow the plan only (used for dry runs, preemption plans and replay).
    Plan,
    /// Preempt with a probability that depends on the kind of the access.
    Rand([u32; NKIND]),
    /// Priorities with change points (PCT); the change points are global event numbers.
    Pct(Vec<u64>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Switch {
    pub task: usize,
    /// event number of `task` before which the switch happens; u64::MAX: at its end
    pub ev: u64,
    pub to: usize,
}

#[derive(Clone)]
pub struct AllocRec {
    pub addr: usize,
    pub size: usize,
    pub align: usize,
    pub owner: u32,
    pub live: bool,
    pub by: usize,
    pub writer: usize,
    pub writer_op: u32,
}

#[derive(Clone, Default)]
pub struct Task {
    pub finished: bool,
    pub stalled: bool,
    pub was_stalled: bool,
    pub ev: u64,
    pub since: u64,
    pub since_writes: u64,
    pub op_ev: u64,
    pub op_serial: u32,
    pub in_op: bool,
    pub in_tree: bool,
    /// a tree is being constructed: its own memory comes from the arena, too
    pub in_make: bool,
    pub stall_at: u64,
    pub oom_mask: u64,
    pub op_allocs: u32,
    pub op_oom_fired: u32,
    pub prio: i64,
    pub vc: Vc,
    pub acq_pending: Vc,
    pub rel_fence: Vc,
    pub plan: Vec<(u64, usize)>,
    pub plan_pos: usize,
    pub fin_plan: Option<usize>,
    pub last_load: Vec<(usize, u64, u32)>,
    pub reads: Vec<Optimistic>,
    pub weak_mask: u64,
    pub op_weak: u32,
    pub rel_id: u32,
}

/// What one operation knows about one block it reads without a lock: the word of the block it
/// loaded last, the value it saw there, and the first plain read since then that is not
/// ordered after the write it may observe.
#[derive(Clone, Copy, Default)]
pub struct Optimistic {
    pub block: u32,
    pub serial: u32,
    pub word: usize,
    pub value: u64,
    /// (address read, its last writer); address 0: none
    pub racy: (usize, usize),
}
const NREADS: usize = 64;

pub const P_SWITCH: usize = 0;
pub const P_MIDOP: usize = 1;
pub const P_CAS_FAIL: usize = 2;
pub const P_VCHANGE: usize = 3;
pub const P_READ_IN_MUT: usize = 4;
pub const P_OOM: usize = 5;
pub const P_STALL: usize = 6;
pub const P_ALLOC: usize = 7;
pub const P_FREE: usize = 8;
pub const P_FREE_CONC: usize = 9;
pub const P_FORCED: usize = 10;
pub const P_EVENTS: usize = 11;
pub const P_FAIR: usize = 12;
pub const P_STALE: usize = 13;
pub const P_STALE_OK: usize = 14;
pub const P_YIELD: usize = 15;
pub const NPROBE: usize = 16;
pub const PROBE_NAMES: [&str; NPROBE] = [
    "context_switches",
    "preemptions_inside_an_operation",
    "lock_upgrades_lost_to_another_thread",
    "version_changed_under_a_reader",
    "read_of_node_being_mutated",
    "allocation_failures_injected",
    "readers_stalled_until_all_others_finished",
    "allocations",
    "frees",
    "frees_while_other_threads_run",
    "forced_switches_after_long_spin",
    "memory_access_events",
    "runs_entering_fair_phase",
    "version_loads_answered_with_an_older_value",
    "version_loads_where_an_older_value_was_allowed",
    "blocking_calls_turned_into_switches",
];

pub struct Rt {
    /// the simulator itself is at work: what it allocates is not the tree's
    pub inside: bool,
    pub phase: Phase,
    pub cur: usize,
    pub ntasks: usize,
    pub tasks: Vec<Task>,
    pub strat: Strat,
    pub rng: u64,
    pub total: u64,
    pub hash: u64,
    pub inter: u64,
    pub cap1: u64,
    pub fair_next: u64,
    pub fair_rot: u32,
    pub pct_pos: usize,
    pub pct_low: i64,
    pub trace: Vec<Switch>,
    pub record_kinds: bool,
    pub kinds: Vec<Vec<u8>>,
    pub seq: u64,
    /// per atomic word: what a load that reads from it synchronizes with, and its value
    pub locs: HashMap<usize, (Vc, u64), BuildH>,
    pub shadow: *mut u8,
    pub index: *mut u32,
    /// per granule, the last plain write of the concurrent phase: thread << 32 | its clock
    pub epoch: *mut u64,
    pub bump: usize,
    pub allocs: Vec<AllocRec>,
    pub solo_ev: u64,
    pub solo_cap: u64,
    pub probes: [u64; NPROBE],
    pub racy: bool,
    pub uaf_fatal: bool,
    /// judge the ordering of plain accesses (`plain`, `validate`)
    pub judge_order: bool,
    pub judge_stall: bool,
    /// a repeated load of a word may be answered with the value the thread already knows
    pub weak: bool,
    /// modifications of every atomic word, in order: value, thread, its clock, what it releases
    pub mods: HashMap<usize, Vec<(u64, usize, u32, Vc)>, BuildH>,
    /// what release fences covered, and per granule the fence before its last plain write
    pub rel_fences: Vec<Vc>,
    pub fenced: *mut u32,
    pub sc: Vc,
    pub default_layouts: Vec<(usize, usize)>,
    pub default_owner: u32,
    pub track_default: bool,
    pub log: Option<Vec<(u8, u8, u32)>>,
}

#[derive(Default, Clone)]
pub struct BuildH;
pub struct H(u64);
impl std::hash::BuildHasher for BuildH {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        H(0)
    }
}
impl std::hash::Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_usize(&mut self, x: usize) {
        let h = (x as u64 ^ self.0).wrapping_mul(0x9e3779b97f4a7c15);
        self.0 = h ^ (h >> 29);
    }
}

static mut RT: Option<Rt> = None;
static FLAGS: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static mut FAIL_HOOK: Option<fn(&str, &str) -> !> = None;

#[inline(always)]
pub fn rt() -> &'static mut Rt {
    unsafe { RT.as_mut().unwrap_unchecked() }
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn __errno_location() -> *mut i32;
}

fn map(addr: usize, len: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE (|MAP_FIXED_NOREPLACE)
    let f = 0x02 | 0x20 | 0x4000 | if addr != 0 { 0x100000 } else { 0 };
    let p = unsafe { mmap(addr as *mut u8, len, 3, f, -1, 0) };
    if p as isize == -1 || (addr != 0 && p as usize != addr) {
        eprintln!("simulator: cannot map its arena");
        std::process::exit(70);
    }
    p
}

pub fn init(hook: fn(&str, &str) -> !) {
    unsafe {
        FAIL_HOOK = Some(hook);
        map(ARENA_BASE, ARENA_SIZE);
        RT = Some(Rt {
            inside: false,
            phase: Phase::Off,
            cur: 0,
            ntasks: 0,
            tasks: vec![Task::default(); MAXT],
            strat: Strat::Plan,
            rng: 1,
            total: 0,
            hash: 0,
            inter: 0,
            cap1: u64::MAX,
            fair_next: 0,
            fair_rot: 0,
            pct_pos: 0,
            pct_low: 0,
            trace: vec![],
            record_kinds: false,
            kinds: vec![vec![]; MAXT],
            seq: 0,
            locs: HashMap::with_hasher(BuildH),
            shadow: map(0, GRANULES),
            index: map(0, GRANULES * 4) as *mut u32,
            epoch: map(0, GRANULES * 8) as *mut u64,
            bump: 0,
            allocs: vec![],
            solo_ev: 0,
            solo_cap: 4_000_000,
            probes: [0; NPROBE],
            racy: false,
            uaf_fatal: true,
            judge_order: false,
            judge_stall: false,
            weak: false,
            mods: HashMap::with_hasher(BuildH),
            rel_fences: vec![],
            fenced: map(0, GRANULES * 4) as *mut u32,
            sc: [0; MAXT],
            default_layouts: vec![],
            default_owner: 0,
            track_default: false,
            log: None,
        });
    }
}

/// Forget the previous run: empty arena, no tasks, no clocks.
pub fn reset_run() {
    let r = rt();
    let used = (r.bump + REDZONE) / 8 + 1;
    let used = used.min(GRANULES);
    unsafe {
        std::ptr::write_bytes(r.shadow, 0, used);
    }
    r.bump = 0;
    r.allocs.clear();
    r.locs.clear();
    r.mods.clear();
    r.rel_fences.clear();
    r.rel_fences.push([0; MAXT]);
    r.sc = [0; MAXT];
    for t in r.tasks.iter_mut() {
        let mut plan = std::mem::take(&mut t.plan);
        plan.clear();
        let mut ll = std::mem::take(&mut t.last_load);
        ll.clear();
        ll.resize(16, (0, 0, 0));
        let mut reads = std::mem::take(&mut t.reads);
        reads.clear();
        reads.resize(NREADS, Optimistic::default());
        *t = Task { plan, last_load: ll, reads, stall_at: u64::MAX, ..Task::default() };
    }
    for k in r.kinds.iter_mut() {
        k.clear();
    }
    for f in FLAGS.iter() {
        f.store(0, Ordering::SeqCst);
    }
    r.inside = false;
    r.phase = Phase::Off;
    r.cur = 0;
    r.ntasks = 0;
    r.strat = Strat::Plan;
    r.total = 0;
    r.hash = 0xcbf29ce484222325;
    r.inter = 0xcbf29ce484222325;
    r.cap1 = u64::MAX;
    r.fair_next = 0;
    r.fair_rot = 0;
    r.pct_pos = 0;
    r.pct_low = 0;
    r.trace.clear();
    r.record_kinds = false;
    r.seq = 0;
    r.solo_ev = 0;
    r.racy = false;
    r.default_owner = 0;
    r.track_default = false;
}

pub fn fatal(class: &str, msg: &str) -> ! {
    match unsafe { FAIL_HOOK } {
        Some(h) => h(class, msg),
        None => std::process::exit(70),
    }
}

#[inline]
pub fn next_rand(s: &mut u64) -> u64 {
    // xorshift64*
    let mut x = *s;
    x ^= x >> 12;
    x ^= x << 25;
    x ^= x >> 27;
    *s = x;
    x.wrapping_mul(0x2545F4914F6CDD1D)
}

// ---------------------------------------------------------------- scheduling

unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let mut r = n;
    std::arch::asm!("syscall", inout("rax") r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        out("rcx") _, out("r11") _, options(nostack));
    r
}

unsafe fn libc_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r = raw_syscall(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

fn futex(a: &AtomicU32, op: i32, v: u32) {
    unsafe {
        raw_syscall(202, a as *const AtomicU32 as usize, op as usize, v as usize, 0, 0, 0);
    }
}

std::thread_local! {
    /// this is the thread of a simulated thread (or the driver)
    static SIMULATED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// The calling thread is one of the simulated ones.
pub fn simulated_thread() {
    SIMULATED.set(true);
}

/// The tree under test would give up the processor: it blocks on a lock of the standard library, sleeps
/// or yields. Another thread runs instead; a blocking call then returns as if woken for no reason.
fn gives_way(force: bool, word: usize) -> bool {
    unsafe {
        let Some(r) = (*std::ptr::addr_of_mut!(RT)).as_mut() else { return false };
        if r.inside || r.phase == Phase::Off || !SIMULATED.get() || !r.tasks[r.cur].in_tree {
            return false;
        }
        let _i = Inside::new();
        match r.phase {
            Phase::Conc => {
                if force {
                    r.tasks[r.cur].since = 10_000;
                }
                r.probes[P_YIELD] += 1;
                r.point(K_USER, 1);
                let r = rt();
                if let Some(l) = r.locs.get(&word) {
                    // it was waiting for whoever wrote this word
                    let v = l.0;
                    join(&mut r.tasks[r.cur].vc, &v);
                }
            }
            _ => {
                r.solo_ev += 100;
                if r.solo_ev > r.solo_cap {
                    fatal("hang", "a single operation running alone does not finish (it waits for something nobody will do)");
                }
            }
        }
        true
    }
}

/// The standard library's entry to futexes.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    // FUTEX_WAIT, FUTEX_WAIT_BITSET
    if n == 202 && matches!(b & 0x7f, 0 | 9) && gives_way(true, a) {
        return 0;
    }
    libc_syscall(n, a, b, c, d, e, f)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if gives_way(false, 0) {
        return 0;
    }
    libc_syscall(24, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: usize, b: usize) -> i32 {
    if gives_way(true, 0) {
        return 0;
    }
    libc_syscall(35, a, b, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: usize, flags: usize, a: usize, b: usize) -> i32 {
    if gives_way(true, 0) {
        return 0;
    }
    -raw_syscall(230, clock, flags, a, b, 0, 0) as i32
}

pub fn park(i: usize) {
    loop {
        for _ in 0..2 {
            if FLAGS[i].swap(0, Ordering::SeqCst) == 1 {
                return;
            }
        }
        futex(&FLAGS[i], 128, 0); // FUTEX_WAIT_PRIVATE
    }
}

pub fn unpark(i: usize) {
    FLAGS[i].store(1, Ordering::SeqCst);
    futex(&FLAGS[i], 129, 1); // FUTEX_WAKE_PRIVATE
}

impl Rt {
    #[inline]
    fn runnable(&self, i: usize) -> bool {
        i >= 1 && i <= self.ntasks && !self.tasks[i].finished && !self.tasks[i].stalled
    }

    fn nrunnable_other(&self) -> usize {
        (1..=self.ntasks).filter(|&i| i != self.cur && self.runnable(i)).count()
    }

    fn pick_other_random(&mut self) -> Option<usize> {
        let n = self.nrunnable_other();
        if n == 0 {
            return None;
        }
        let mut k = (next_rand(&mut self.rng) % n as u64) as usize;
        for i in 1..=self.ntasks {
            if i != self.cur && self.runnable(i) {
                if k == 0 {
                    return Some(i);
                }
                k -= 1;
            }
        }
        None
    }

    fn pick_other_next(&self) -> Option<usize> {
        for d in 1..=self.ntasks {
            let i = (self.cur - 1 + d) % self.ntasks + 1;
            if i != self.cur && self.runnable(i) {
                return Some(i);
            }
        }
        None
    }

    fn top_prio(&self) -> Option<usize> {
        (1..=self.ntasks).filter(|&i| self.runnable(i)).max_by_key(|&i| self.tasks[i].prio)
    }

    fn other_for_strat(&mut self) -> Option<usize> {
        match self.strat {
            Strat::Plan => self.pick_other_next(),
            Strat::Rand(_) => self.pick_other_random(),
            Strat::Pct(_) => {
                let me = self.cur;
                self.pct_low -= 1;
                self.tasks[me].prio = self.pct_low;
                self.top_prio().filter(|&x| x != me)
            }
        }
    }

    fn switch_to(&mut self, ev: u64, to: usize) {
        let me = self.cur;
        if self.trace.len() < 200_000 && self.fair_rot == 0 {
            self.trace.push(Switch { task: me, ev, to });
        }
        self.probes[P_SWITCH] += 1;
        if self.tasks[me].in_op {
            self.probes[P_MIDOP] += 1;
        }
        self.inter = (self.inter ^ ((me as u64) << 56) ^ ((to as u64) << 48) ^ ev).wrapping_mul(0x100000001b3);
        self.inter ^= self.inter >> 31;
        self.tasks[me].since = 0;
        self.tasks[me].since_writes = 0;
        self.tasks[to].since = 0;
        self.tasks[to].since_writes = 0;
        self.cur = to;
        unpark(to);
        park(me);
        self.inside = true;
    }

    /// One scheduling point of the running simulated thread.
    #[inline]
    fn point(&mut self, kind: u8, off: usize) {
        let me = self.cur;
        self.total += 1;
        self.probes[P_EVENTS] += 1;
        let t = &mut self.tasks[me];
        let ev = t.ev;
        t.ev += 1;
        let op_ev = t.op_ev;
        t.op_ev += 1;
        t.since += 1;
        if kind == K_WRITE || kind == K_ASTORE || kind == K_ARMW {
            t.since_writes += 1;
        }
        self.hash = (self.hash ^ ((me as u64) << 60) ^ ((kind as u64) << 56) ^ off as u64).wrapping_mul(0x100000001b3);
        if self.record_kinds {
            self.kinds[me].push(kind);
        }
        if let Some(l) = self.log.as_mut() {
            if l.len() < 4_000_000 {
                l.push((me as u8, kind, off as u32));
            }
        }
        if self.ntasks <= 1 {
            if self.total > self.cap1 {
                self.fair(ev);
            }
            return;
        }
        let t = &mut self.tasks[me];
        if self.total > self.cap1 {
            self.fair(ev);
            return;
        }
        if op_ev == t.stall_at && t.in_op {
            t.stall_at = u64::MAX;
            if self.nrunnable_other() > 0 {
                self.tasks[me].stalled = true;
                self.tasks[me].was_stalled = true;
                self.probes[P_STALL] += 1;
                let planned = self.tasks[me].plan.iter().find(|p| p.0 == ev).map(|p| p.1);
                let planned = planned.filter(|&x| x != me && self.runnable(x));
                let to = match planned.or_else(|| self.other_for_strat()).or_else(|| self.pick_other_next()) {
                    Some(t) => t,
                    None => return,
                };
                self.switch_to(ev, to);
                return;
            }
        }
        // plan entries apply in every mode (they are empty unless replaying/planning)
        let t = &mut self.tasks[me];
        while t.plan_pos < t.plan.len() && t.plan[t.plan_pos].0 < ev {
            t.plan_pos += 1;
        }
        if t.plan_pos < t.plan.len() && t.plan[t.plan_pos].0 == ev {
            let to = t.plan[t.plan_pos].1;
            t.plan_pos += 1;
            if to != me && self.runnable(to) {
                self.switch_to(ev, to);
                return;
            }
        }
        let since = self.tasks[me].since;
        let mut want = None;
        match &self.strat {
            Strat::Plan => {}
            Strat::Rand(p) => {
                let p = p[kind as usize];
                if p != 0 && (next_rand(&mut self.rng) >> 32) as u32 <= p {
                    want = self.pick_other_random();
                }
            }
            Strat::Pct(cps) => {
                if self.pct_pos < cps.len() && self.total >= cps[self.pct_pos] {
                    self.pct_pos += 1;
                    want = self.other_for_strat();
                }
            }
        }
        if want.is_none() && since > 800 {
            let lim = if self.tasks[me].since_writes == 0 { 800 } else { 6000 };
            if since > lim {
                self.probes[P_FORCED] += 1;
                want = self.other_for_strat();
            }
        }
        if let Some(to) = want {
            self.switch_to(ev, to);
        }
    }

    /// Past the step budget: round robin with a quantum that is long enough for any single
    /// operation to finish alone. Whoever still cannot finish is blocked by someone else's
    /// leftover state.
    #[cold]
    fn fair(&mut self, ev: u64) {
        if self.total >= self.fair_next {
            if self.fair_rot == 0 {
                self.probes[P_FAIR] += 1;
            }
            self.fair_rot += 1;
            self.fair_next = self.total + FAIR_QUANTUM;
            if self.fair_rot > 30 && !self.judge_stall && (1..=self.ntasks).any(|i| self.tasks[i].stalled) {
                // they may be in the way of the others; that is C09's business
                for t in self.tasks.iter_mut() {
                    t.stalled = false;
                }
                self.fair_rot = 1;
            }
            if self.fair_rot > 60 {
                let st: Vec<usize> = (1..=self.ntasks).filter(|&i| self.tasks[i].stalled).collect();
                let un: Vec<usize> = (1..=self.ntasks).filter(|&i| !self.tasks[i].finished).collect();
                let class = if st.is_empty() { "hang" } else { "blocked-by-stalled-reader" };
                fatal(class, &format!(
                    "after {} steps threads {:?} still cannot finish although every one of them was given {} uninterrupted turns of {} steps (stalled readers: {:?})",
                    self.total, un, self.fair_rot as usize / un.len().max(1), FAIR_QUANTUM, st));
            }
            if let Some(to) = self.pick_other_next() {
                self.switch_to(ev, to);
            }
        }
    }
}

/// Start the concurrent phase: called by the driver once all task threads are parked.
pub fn start(first: usize) {
    let r = rt();
    let vc0 = r.tasks[0].vc;
    for i in 1..=r.ntasks {
        r.tasks[i].vc = vc0;
        r.tasks[i].vc[i] = 1;
    }
    if let Strat::Pct(_) = r.strat {
        let mut ps: Vec<i64> = (1..=r.ntasks as i64).collect();
        for i in (1..ps.len()).rev() {
            let j = (next_rand(&mut r.rng) % (i as u64 + 1)) as usize;
            ps.swap(i, j);
        }
        for i in 1..=r.ntasks {
            r.tasks[i].prio = ps[i - 1];
        }
    }
    let first = if let Strat::Pct(_) = r.strat { r.top_prio().unwrap() } else { first };
    r.trace.push(Switch { task: 0, ev: 0, to: first });
    r.phase = Phase::Conc;
    r.cur = first;
    r.inside = false;
    unpark(first);
    park(0);
    let r = rt();
    r.inside = false;
    r.phase = Phase::Solo;
    r.cur = 0;
    r.solo_ev = 0;
    for i in 1..=r.ntasks {
        let v = r.tasks[i].vc;
        join(&mut r.tasks[0].vc, &v);
    }
}

/// The running task has executed its program. Hands the processor on and parks until the
/// driver lets the thread exit.
pub fn task_done() {
    let r = rt();
    r.inside = true;
    let me = r.cur;
    r.tasks[me].finished = true;
    let any = (1..=r.ntasks).any(|i| r.runnable(i));
    if !any {
        for i in 1..=r.ntasks {
            r.tasks[i].stalled = false;
        }
    }
    let next = if (1..=r.ntasks).any(|i| r.runnable(i)) {
        let planned = r.tasks[me].fin_plan.filter(|&t| r.runnable(t));
        let to = match (planned, &r.strat) {
            (Some(t), _) => t,
            (None, Strat::Plan) => r.pick_other_next().unwrap(),
            (None, Strat::Rand(_)) => r.pick_other_random().unwrap(),
            (None, Strat::Pct(_)) => r.top_prio().unwrap(),
        };
        if r.fair_rot == 0 {
            r.trace.push(Switch { task: me, ev: u64::MAX, to });
        }
        r.tasks[to].since = 0;
        to
    } else {
        0
    };
    r.cur = next;
    unpark(next);
    park(me);
}

// ------------------------------------------------------------- vector clocks

#[inline]
pub fn join(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

pub const MO_SEQ_CST: i32 = 5;
#[inline]
fn is_acq(mo: i32) -> bool {
    matches!(mo & 0xff, 1 | 2 | 4 | 5)
}
#[inline]
fn is_rel(mo: i32) -> bool {
    matches!(mo & 0xff, 3 | 4 | 5)
}

impl Rt {
    pub fn sync_load(&mut self, addr: usize, value: u64, mo: i32) {
        if self.phase != Phase::Conc {
            return;
        }
        match self.locs.get_mut(&addr) {
            Some(l) => {
                if l.1 != value {
                    // written by code that is not instrumented (a lock of the standard library):
                    // take it for synchronization with everybody
                    l.1 = value;
                    for i in 1..=self.ntasks {
                        let v = self.tasks[i].vc;
                        join(&mut l.0, &v);
                    }
                    for i in 1..=self.ntasks {
                        self.tasks[i].vc[i] += 1;
                    }
                }
                let v = l.0;
                let t = &mut self.tasks[self.cur];
                if is_acq(mo) {
                    join(&mut t.vc, &v);
                } else {
                    join(&mut t.acq_pending, &v);
                }
            }
            None => {
                let _i = Inside::new();
                self.locs.insert(addr, ([0; MAXT], value));
            }
        }
    }
    pub fn sync_store(&mut self, addr: usize, value: u64, mo: i32, rmw: bool) {
        let _i = Inside::new();
        if self.phase != Phase::Conc {
            return;
        }
        let t = &self.tasks[self.cur];
        let mut v = if is_rel(mo) { t.vc } else { t.rel_fence };
        if rmw {
            if let Some(o) = self.locs.get(&addr) {
                join(&mut v, &o.0);
            }
        }
        self.locs.insert(addr, (v, value));
        let me = self.cur;
        if self.weak {
            let c = self.tasks[me].vc;
            self.mods.entry(addr).or_default().push((value, me, c[me], v));
            if mo & 0xff == MO_SEQ_CST {
                join(&mut self.sc, &c);
            }
        }
        self.tasks[me].vc[me] += 1; // what follows is not covered by this release
    }
    pub fn fence(&mut self, mo: i32) {
        let _i = Inside::new();
        if self.phase != Phase::Conc {
            return;
        }
        let t = &mut self.tasks[self.cur];
        if is_acq(mo) {
            let p = t.acq_pending;
            join(&mut t.vc, &p);
        }
        if is_rel(mo) {
            if mo & 0xff == MO_SEQ_CST {
                join(&mut t.vc, &self.sc);
                self.sc = t.vc;
            }
            t.rel_fence = t.vc;
            if self.weak {
                self.rel_fences.push(t.vc);
                t.rel_id = self.rel_fences.len() as u32 - 1;
            }
            t.vc[self.cur] += 1;
        }
    }

    /// The value a load returns. A thread that has seen a word before may see the same value
    /// again although the word has changed since, unless one of the changes happens-before
    /// the load (or the load is sequentially consistent).
    pub fn load_value(&mut self, addr: usize, now: u64, mo: i32) -> u64 {
        if self.phase != Phase::Conc {
            return now;
        }
        if self.weak && mo & 0xff != MO_SEQ_CST && in_arena(addr) {
            let block = unsafe { *self.index.add((addr - ARENA_BASE) / 8) };
            let t = &mut self.tasks[self.cur];
            let o = t.reads[block as usize % NREADS];
            if o.block == block && o.serial == t.op_serial && o.word == addr && o.value != now && t.in_op {
                let none = vec![];
                let m = self.mods.get(&addr).unwrap_or(&none);
                let known = m.iter().rposition(|x| x.0 == o.value);
                let newer = &m[known.map_or(0, |k| k + 1)..];
                if !newer.iter().any(|x| t.vc[x.1] >= x.2) {
                    self.probes[P_STALE_OK] += 1;
                    let n = t.op_weak;
                    t.op_weak += 1;
                    if n < 64 && t.weak_mask >> n & 1 == 1 {
                        self.probes[P_STALE] += 1;
                        self.racy = true;
                        if let Some(k) = known {
                            let v = m[k].3;
                            join(if is_acq(mo) { &mut t.vc } else { &mut t.acq_pending }, &v);
                        }
                        return o.value;
                    }
                }
            }
        }
        self.sync_load(addr, now, mo);
        now
    }

    /// A plain access of the concurrent phase. Two writes of one word must be ordered. A read
    /// may race with a write, as long as the operation does not rely on it (see `validate`).
    #[inline]
    fn plain(&mut self, block: u32, addr: usize, g0: usize, g1: usize, write: bool) {
        let me = self.cur;
        for g in g0..=g1 {
            let e = unsafe { &mut *self.epoch.add(g) };
            let (w, c) = ((*e >> 32) as usize, *e as u32);
            if w != 0 && w != me && self.tasks[me].vc[w] < c {
                if write && self.judge_order {
                    fatal("order", &format!(
                        "threads {} and {} both write {} and nothing orders the two writes", w, me, self.place(addr)));
                }
                let t = &mut self.tasks[me];
                let o = &mut t.reads[block as usize % NREADS];
                if o.block == block && o.serial == t.op_serial && o.racy.0 == 0 {
                    o.racy = (addr, w);
                }
            }
            if self.weak {
                let f = unsafe { &mut *self.fenced.add(g) };
                if write {
                    *f = self.tasks[me].rel_id;
                } else if w != 0 && w != me {
                    // as if node contents were relaxed atomics: a release fence before the
                    // write and an acquire fence after this read synchronize
                    let v = self.rel_fences[*f as usize];
                    join(&mut self.tasks[me].acq_pending, &v);
                }
            }
            if write {
                *e = (me as u64) << 32 | self.tasks[me].vc[me] as u64;
            }
        }
    }

    /// The running thread has read `value` from an atomic word. If it saw the same value there
    /// before, it takes what it read from the block in between for consistent: all of it has
    /// to be ordered after the writes it observed.
    pub fn validate(&mut self, addr: usize, value: u64) {
        if self.phase != Phase::Conc || !(self.judge_order || self.weak) || !in_arena(addr) {
            return;
        }
        let block = unsafe { *self.index.add((addr - ARENA_BASE) / 8) };
        let me = self.cur;
        let t = &mut self.tasks[me];
        let serial = t.op_serial;
        let o = &mut t.reads[block as usize % NREADS];
        let old = *o;
        *o = Optimistic { block, serial, word: addr, value, racy: (0, 0) };
        if old.block == block && old.serial == serial && old.word == addr && old.value == value && old.racy.0 != 0 && self.judge_order {
            let (a, w) = old.racy;
            fatal("order", &format!(
                "thread {} relies on what it read from {} (the block's version is unchanged), but nothing orders thread {}'s write to it before the read",
                me, self.place(a), w));
        }
    }

    /// The running thread knows this value of the word.
    pub fn seen(&mut self, addr: usize, value: u64) {
        if self.phase == Phase::Conc && (self.judge_order || self.weak) && in_arena(addr) {
            let block = unsafe { *self.index.add((addr - ARENA_BASE) / 8) };
            let t = &mut self.tasks[self.cur];
            t.reads[block as usize % NREADS] =
                Optimistic { block, serial: t.op_serial, word: addr, value, racy: (0, 0) };
        }
    }

    #[cold]
    fn place(&self, addr: usize) -> String {
        match self.allocs.iter().rev().find(|a| a.addr <= addr) {
            Some(a) => format!("byte {} of a block of {} bytes", addr - a.addr, a.size),
            None => "memory outside every block".into(),
        }
    }
}

// ------------------------------------------------------------------ accesses

#[inline(always)]
pub fn in_arena(a: usize) -> bool {
    a.wrapping_sub(ARENA_BASE) < ARENA_SIZE
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
/// Atomics in static memory are scheduling points, too.
#[inline(always)]
pub fn in_static(a: usize) -> bool {
    unsafe { a >= &__data_start as *const u8 as usize && a < &_end as *const u8 as usize }
}
#[inline(always)]
pub fn tracked(a: usize) -> bool {
    in_arena(a) || in_static(a)
}

#[inline(always)]
pub fn access_atomic(addr: usize, size: usize, kind: u8) {
    if in_arena(addr) {
        access_slow(addr, size, kind);
    } else if in_static(addr) {
        let _i = Inside::new();
        let r = rt();
        if r.phase == Phase::Conc {
            r.point(kind, addr - unsafe { &__data_start as *const u8 as usize });
        }
    }
}

#[inline(always)]
pub fn access(addr: usize, size: usize, kind: u8) {
    if in_arena(addr) {
        access_slow(addr, size, kind);
    }
}

/// Marks the time in which the simulator is at work.
pub struct Inside(bool);
impl Inside {
    #[inline]
    pub fn new() -> Inside {
        Inside(std::mem::replace(&mut rt().inside, true))
    }
}
impl Drop for Inside {
    #[inline]
    fn drop(&mut self) {
        rt().inside = self.0;
    }
}

#[inline(never)]
pub fn access_slow(addr: usize, size: usize, kind: u8) {
    let _i = Inside::new();
    let r = rt();
    match r.phase {
        Phase::Off => return,
        Phase::Solo => {
            r.solo_ev += 1;
            if r.solo_ev > r.solo_cap {
                fatal("hang", "a single operation running alone does not finish (step budget exhausted)");
            }
        }
        Phase::Conc => r.point(kind, addr - ARENA_BASE),
    }
    let g0 = (addr - ARENA_BASE) / 8;
    let g1 = (addr - ARENA_BASE + size - 1) / 8;
    let mut g = g0;
    while g <= g1 {
        let s = unsafe { *r.shadow.add(g) };
        if s != 1 {
            bad_access(addr, size, kind, s);
            return;
        }
        g += 1;
    }
    if r.phase == Phase::Conc {
        let a = unsafe { *r.index.add(g0) } as usize;
        let me = r.cur;
        let rec = &mut r.allocs[a];
        if kind == K_READ || kind == K_ALOAD {
            let w = rec.writer;
            if w != me && w != 0 && r.tasks[w].in_op && r.tasks[w].op_serial == rec.writer_op {
                r.probes[P_READ_IN_MUT] += 1;
                r.racy = true;
            }
        } else {
            rec.writer = me;
            rec.writer_op = r.tasks[me].op_serial;
        }
        if (r.judge_order || r.weak) && (kind == K_READ || kind == K_WRITE) {
            r.plain(a as u32, addr, g0, g1, kind == K_WRITE);
        }
    }
}

#[cold]
fn bad_access(addr: usize, size: usize, kind: u8, s: u8) {
    let r = rt();
    if !r.uaf_fatal {
        return;
    }
    let who = if r.phase == Phase::Conc { format!("thread {}", r.cur) } else { "the driver".into() };
    let near = r.allocs.iter().rev().find(|a| a.addr <= addr);
    let what = match near {
        Some(a) => format!("{} bytes into a block of {} bytes", addr - a.addr, a.size),
        None => "outside every block".into(),
    };
    let (class, w) = if s == 2 { ("use-after-free", "freed") } else { ("out-of-bounds", "unallocated") };
    fatal(class, &format!("{} of {} bytes by {} touches {} memory ({})", KIND_NAMES[kind as usize], size, who, w, what));
}

/// A scheduling point between two operations.
pub fn boundary_point() {
    let _i = Inside::new();
    let r = rt();
    if r.phase == Phase::Conc {
        r.point(K_BOUND, 0);
    }
}

/// A scheduling point inside a user callback.
pub fn user_point() {
    let _i = Inside::new();
    let r = rt();
    if r.phase == Phase::Conc {
        r.point(K_USER, 0);
    }
}

// ----------------------------------------------------------------- allocator

pub fn sim_alloc(size: usize, align: usize, owner: u32) -> *mut u8 {
    let _i = Inside::new();
    let r = rt();
    if r.phase == Phase::Conc {
        r.point(K_ALLOC, size);
    }
    let r = rt();
    let me = r.cur;
    let t = &mut r.tasks[me];
    let n = t.op_allocs;
    t.op_allocs += 1;
    if owner == STRUCT_OWNER {
        t.op_allocs = n; // no fault: the standard library would abort
    } else if t.oom_mask == u64::MAX || n < 64 && t.oom_mask >> n & 1 == 1 {
        t.op_oom_fired += 1;
        r.probes[P_OOM] += 1;
        return std::ptr::null_mut();
    }
    let al = align.max(16);
    let start = (r.bump + REDZONE + al - 1) / al * al;
    let end = start + size;
    if end + REDZONE > ARENA_SIZE {
        fatal("hang", "runaway allocation: a run allocated more than 64 MiB of nodes");
    }
    r.bump = end;
    let addr = ARENA_BASE + start;
    let id = r.allocs.len() as u32;
    r.allocs.push(AllocRec { addr, size, align, owner, live: true, by: me, writer: 0, writer_op: 0 });
    unsafe {
        for g in start / 8..(end + 7) / 8 {
            *r.shadow.add(g) = 1;
            *r.index.add(g) = id;
            *r.epoch.add(g) = 0;
            *r.fenced.add(g) = 0;
        }
        std::ptr::write_bytes(addr as *mut u8, 0xCD, size);
    }
    r.probes[P_ALLOC] += 1;
    addr as *mut u8
}

pub fn sim_free(ptr: usize, size: usize, align: usize, owner: u32) {
    let _i = Inside::new();
    let r = rt();
    if r.phase == Phase::Off {
        return;
    }
    if r.phase == Phase::Conc {
        r.point(K_FREE, size);
    }
    let r = rt();
    let id = match r.allocs.binary_search_by(|a| a.addr.cmp(&ptr)) {
        Ok(i) => i,
        Err(_) => fatal("bad-free", &format!("freed a pointer that was never handed out (size {})", size)),
    };
    let me = r.cur;
    let a = &mut r.allocs[id];
    if !a.live {
        fatal("double-free", &format!("a block of {} bytes was freed twice", a.size));
    }
    if a.size != size || a.align != align {
        fatal("bad-free", &format!(
            "a block allocated with size {} align {} was freed with size {} align {}", a.size, a.align, size, align));
    }
    if a.owner != owner && !(a.owner == STRUCT_OWNER && owner == r.default_owner) {
        fatal("foreign-free", &format!("a block obtained from allocator {} was returned to allocator {}", a.owner, owner));
    }
    a.live = false;
    let (s, n) = (a.addr - ARENA_BASE, a.size);
    unsafe {
        for g in s / 8..(s + n + 7) / 8 {
            *r.shadow.add(g) = 2;
        }
        std::ptr::write_bytes((s + ARENA_BASE) as *mut u8, 0xDD, n);
    }
    r.probes[P_FREE] += 1;
    if r.phase == Phase::Conc && (1..=r.ntasks).any(|i| i != me && !r.tasks[i].finished) {
        r.probes[P_FREE_CONC] += 1;
    }
}

/// Owner of the memory of trees themselves (not of their nodes).
pub const STRUCT_OWNER: u32 = u32::MAX;

/// Global allocator entry: requests made while a tree is constructed.
#[inline]
pub fn wants_struct() -> bool {
    unsafe {
        match RT.as_ref() {
            Some(r) => r.track_default && !r.inside && r.phase != Phase::Off && r.tasks[r.cur].in_make,
            None => false,
        }
    }
}

pub fn live_blocks(owner: u32) -> usize {
    rt().allocs.iter().filter(|a| a.live && a.owner == owner).count()
}

/// Global allocator entry: node-sized requests made from inside a tree operation.
#[inline]
pub fn wants_default(size: usize, align: usize) -> bool {
    unsafe {
        match RT.as_ref() {
            Some(r) => {
                r.track_default
                    && !r.inside
                    && r.phase != Phase::Off
                    && r.tasks[r.cur].in_tree
                    && r.default_layouts.contains(&(size, align))
            }
            None => false,
        }
    }
}
