//! One entry per property: which programs the search draws from and which findings count.
use crate::gen::Cfg;

macro_rules! safety {
    ($($x:expr),*) => { &[ $($x,)* "use-after-free", "out-of-bounds", "double-free", "bad-free", "foreign-free", "crash", "panic", "hang" ] };
}

//                                        get ins rem cip coi cas rng emp sta gc
const W_POINT: [u32; 10] = [8, 8, 7, 4, 4, 4, 0, 0, 0, 1];
const W_RMW: [u32; 10] = [3, 3, 3, 9, 9, 9, 0, 0, 0, 0];
const W_SCAN: [u32; 10] = [0, 8, 7, 1, 1, 1, 10, 0, 0, 1];
const W_ALL: [u32; 10] = [5, 7, 6, 4, 4, 4, 5, 3, 2, 2];
const W_MEM: [u32; 10] = [6, 8, 9, 2, 2, 2, 5, 1, 1, 5];
const W_CHURN: [u32; 10] = [1, 9, 9, 3, 3, 2, 1, 0, 0, 2];
const W_OOM: [u32; 10] = [3, 12, 5, 2, 7, 2, 1, 0, 0, 1];
const W_PANIC: [u32; 10] = [3, 5, 4, 9, 10, 1, 1, 0, 0, 1];
const W_PROG: [u32; 10] = [8, 8, 6, 3, 3, 3, 6, 2, 2, 2];
const W_PUB: [u32; 10] = [7, 8, 4, 4, 4, 4, 3, 0, 0, 0];
const W_EMPTY: [u32; 10] = [0, 6, 8, 1, 1, 1, 0, 7, 0, 0];
const W_STATS: [u32; 10] = [0, 7, 7, 1, 1, 0, 0, 0, 7, 2];
const W_U64: [u32; 10] = [6, 9, 8, 0, 0, 0, 6, 0, 0, 2];

const BASE: Cfg = Cfg {
    id: "",
    title: "",
    classes: &[],
    facades: [70, 10, 5, 15, 0, 2, 2],
    threads: (2, 4),
    ops: (1, 6),
    w: W_POINT,
    oom: 0,
    weak: 0,
    panic: 0,
    stall: 0,
    long_guard: 25,
    two_trees: 0,
    renew: 2,
    uniq: 75,
    seq: 10,
    shapes: [20, 20, 20, 6, 13, 13, 8],
    mover: 4,
    hot: 4,
    schedules: 20,
    quick_programs: 2500,
};

pub fn all() -> Vec<Cfg> {
    vec![
        Cfg { id: "C01", title: "point operations are linearizable", classes: safety!["lin"], w: W_POINT, oom: 3, panic: 3, ..BASE },
        Cfg { id: "C02", title: "compute and compare-exchange are atomic", classes: safety!["lin", "rmw"], facades: [70, 10, 0, 20, 0, 0, 2], w: W_RMW, oom: 3, panic: 3, hot: 2, ..BASE },
        Cfg { id: "C03", title: "range scans are exact per key under concurrency", classes: safety!["scan"], w: W_SCAN, oom: 3, panic: 3, ops: (1, 5), mover: 15, ..BASE },
        Cfg { id: "C04", title: "after any history all views agree with the map", classes: safety!["lin", "rmw", "scan", "empty", "stats", "drain"], w: W_ALL, facades: [60, 12, 10, 18, 0, 5, 2], seq: 55, oom: 3, panic: 3, quick_programs: 3500, renew: 15, ..BASE },
        Cfg { id: "C05", title: "no access to reclaimed memory, no wild access", classes: safety![], w: W_MEM, oom: 3, panic: 3, long_guard: 45, stall: 4, facades: [60, 20, 10, 10, 0, 5, 2], renew: 12, ..BASE },
        Cfg { id: "C06", title: "every node goes back to the allocator exactly once", classes: safety!["leak", "late-free"], w: W_CHURN, oom: 6, panic: 6, facades: [55, 15, 10, 10, 10, 5, 6], seq: 25, renew: 25, ..BASE },
        Cfg { id: "C07", title: "a failed allocation leaves no trace", classes: safety!["oom", "lin", "scan", "leak", "late-free", "drain"], w: W_OOM, oom: 45, facades: [60, 20, 10, 10, 0, 5, 2], seq: 25, renew: 12, ..BASE },
        Cfg { id: "C08", title: "a panicking callback leaves no trace", classes: safety!["lin", "scan", "leak", "late-free", "drain", "rmw"], w: W_PANIC, panic: 45, facades: [60, 20, 0, 20, 0, 0, 2], seq: 20, renew: 12, ..BASE },
        Cfg { id: "C09", title: "progress: no operation is blocked forever", classes: safety!["blocked-by-stalled-reader"], w: W_PROG, stall: 40, oom: 6, panic: 6, long_guard: 35, renew: 12, ..BASE },
        Cfg { id: "C10", title: "the drainer gets every remaining entry exactly once", classes: safety!["drain"], w: W_CHURN, oom: 3, panic: 3, facades: [60, 15, 0, 25, 0, 0, 0], seq: 35, renew: 30, ..BASE },
        Cfg { id: "C11", title: "handing over a value hands over what happened before it", classes: safety!["publish", "order"], w: W_PUB, uniq: 100, seq: 0, ops: (1, 5), ..BASE },
        Cfg { id: "C12", title: "is_empty is linearizable", classes: safety!["empty"], w: W_EMPTY, oom: 3, panic: 3, facades: [70, 15, 0, 15, 0, 0, 2], shapes: [8, 8, 14, 5, 40, 5, 20], mover: 35, hot: 3, ..BASE },
        Cfg { id: "C13", title: "statistics are safe and exact", classes: safety!["stats"], w: W_STATS, oom: 3, panic: 3, mover: 25, facades: [70, 15, 0, 15, 0, 0, 2], seq: 15, ..BASE },
        Cfg { id: "C14", title: "the u64 front end gives the same guarantees", classes: safety!["lin", "scan", "leak", "late-free"], w: W_U64, facades: [0, 0, 60, 0, 0, 40, 0], oom: 4, seq: 25, renew: 12, ..BASE },
        Cfg { id: "C15", title: "trees are independent of each other", classes: safety!["lin", "rmw", "scan", "empty", "stats", "drain", "leak", "late-free"], w: W_ALL, two_trees: 100, facades: [50, 20, 10, 20, 0, 5, 2], oom: 3, panic: 3, seq: 15, renew: 45, ..BASE },
        Cfg { id: "C16", title: "results do not depend on a strong memory model", classes: safety!["lin", "rmw", "scan", "empty", "stats"], w: W_ALL, oom: 2, panic: 2, weak: 60, seq: 0, mover: 15, quick_programs: 2000, ..BASE },
    ]
}
