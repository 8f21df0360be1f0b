//! Seeded generation of programs and schedules.
use crate::case::*;
use rt::{Strat, Switch, K_ALOAD, K_ALLOC, K_ARMW, K_BOUND, K_FREE, K_USER, K_WRITE, NKIND};
use subject::*;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Rng {
        let mut x = a.wrapping_mul(0x9e3779b97f4a7c15) ^ b.wrapping_mul(0xbf58476d1ce4e5b9) ^ c.wrapping_mul(0x94d049bb133111eb);
        x ^= x >> 30;
        x = x.wrapping_mul(0xbf58476d1ce4e5b9);
        x ^= x >> 27;
        x = x.wrapping_mul(0x94d049bb133111eb);
        x ^= x >> 31;
        let mut r = Rng(x | 1);
        r.u();
        r.u();
        r
    }
    pub fn u(&mut self) -> u64 {
        rt::next_rand(&mut self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            ((self.u() >> 33) % n as u64) as usize
        }
    }
    pub fn pct(&mut self, p: u32) -> bool {
        (self.below(100) as u32) < p
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let s: u32 = w.iter().sum();
        let mut x = self.below(s as usize) as u32;
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        0
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// Weights in the order of `W_*`.
pub const W_GET: usize = 0;
pub const W_INS: usize = 1;
pub const W_REM: usize = 2;
pub const W_CIP: usize = 3;
pub const W_COI: usize = 4;
pub const W_CAS: usize = 5;
pub const W_RANGE: usize = 6;
pub const W_EMPTY: usize = 7;
pub const W_STATS: usize = 8;
pub const W_GC: usize = 9;

#[derive(Clone)]
pub struct Cfg {
    pub id: &'static str,
    pub title: &'static str,
    pub classes: &'static [&'static str],
    /// weights of the front ends, indexed by facade
    pub facades: [u32; subject::FACADES],
    pub threads: (usize, usize),
    pub ops: (usize, usize),
    pub w: [u32; 10],
    pub oom: u32,
    /// percent of operations that may see older values of atomic words
    pub weak: u32,
    pub panic: u32,
    pub stall: u32,
    pub long_guard: u32,
    pub two_trees: u32,
    /// percent of programs with a further tree that one thread drops and renews
    pub renew: u32,
    pub uniq: u32,
    /// percent of programs that are one long sequential history
    pub seq: u32,
    /// weights of key shapes: leaf, inner, split, boundary, tiny, mixed, skeleton
    pub shapes: [u32; NSHAPE],
    /// percent of programs in which one thread moves an entry from key to key
    pub mover: u32,
    /// at most this many hot keys
    pub hot: usize,
    pub schedules: usize,
    pub quick_programs: usize,
}

pub const NSHAPE: usize = 7;

fn edge_byte(r: &mut Rng) -> u8 {
    if r.pct(50) {
        r.pick(&[0u8, 1, 2, 3, 47, 48, 49, 127, 128, 254, 255])
    } else {
        r.below(256) as u8
    }
}

fn base_key(r: &mut Rng) -> [u8; 8] {
    let mut b = [0u8; 8];
    match r.below(4) {
        0 => {}
        1 => b = [255; 8],
        2 => {
            for x in b.iter_mut() {
                *x = edge_byte(r);
            }
        }
        _ => {
            for x in b.iter_mut() {
                *x = r.below(256) as u8;
            }
        }
    }
    b
}

fn level_sizes(r: &mut Rng) -> usize {
    if r.pct(4) {
        return if r.pct(30) { 256 } else { r.range(190, 256) };
    }
    match r.below(8) {
        0 => 0,
        1 => r.range(1, 3),
        2 => r.range(3, 5),
        3 => r.range(3, 4),
        4 => r.range(14, 17),
        5 => r.range(15, 16),
        6 => r.range(46, 49),
        _ => r.range(5, 60),
    }
}

pub struct Keys {
    pub hot: Vec<usize>,
    pub bg: Vec<usize>,
    pub spare: Vec<usize>,
    /// inserted and removed again before anything else: their inner nodes stay
    pub skel: Vec<usize>,
}

fn gen_keys(r: &mut Rng, c: &Cfg) -> Keys {
    let shape = r.weighted(&c.shapes);
    let mut k = Keys { hot: vec![], bg: vec![], spare: vec![], skel: vec![] };
    keys_of_shape(r, shape, &mut k, c.hot);
    if shape == 5 {
        let s1 = r.below(4);
        let s2 = r.below(5);
        keys_of_shape(r, s1, &mut k, c.hot.div_ceil(2));
        keys_of_shape(r, s2, &mut k, c.hot.div_ceil(2));
    }
    for v in [&mut k.hot, &mut k.bg, &mut k.spare] {
        let mut s = std::collections::HashSet::new();
        v.retain(|x| s.insert(*x));
    }
    if k.hot.is_empty() {
        k.hot.push(r.below(1000));
    }
    k
}

fn be(b: [u8; 8]) -> usize {
    usize::from_be_bytes(b)
}

fn keys_of_shape(r: &mut Rng, shape: usize, k: &mut Keys, hot: usize) {
    let nhot = r.range(1, hot.max(1));
    match shape {
        // one dense level: the last one, or an inner one
        0 | 1 => {
            let lvl = if shape == 0 { 7 } else { r.below(7) };
            let base = base_key(r);
            let n = level_sizes(r);
            let mut bytes: Vec<u8> = (0..=255).collect();
            r.shuffle(&mut bytes);
            if r.pct(30) {
                bytes.sort();
                if r.pct(50) {
                    bytes.reverse();
                }
            }
            let multi = shape == 1 && r.pct(30);
            let mk = |r: &mut Rng, b: u8| {
                let mut x = base;
                x[lvl] = b;
                if lvl < 7 && r.pct(20) {
                    x[7] = edge_byte(r);
                }
                be(x)
            };
            for b in bytes.iter().take(n) {
                let x = mk(r, *b);
                k.bg.push(x);
                if multi && r.pct(40) {
                    k.bg.push(x ^ r.range(1, 3));
                }
            }
            for b in bytes.iter().skip(n).take(6) {
                let x = mk(r, *b);
                k.spare.push(x);
            }
            for _ in 0..nhot {
                let x = if n > 0 && r.pct(45) {
                    k.bg[r.below(k.bg.len())]
                } else {
                    let b = bytes[(n + r.below(4)) % 256];
                    mk(r, b)
                };
                k.hot.push(x);
            }
        }
        // chains that split each other's prefixes
        2 => {
            let base = base_key(r);
            for _ in 0..nhot + 2 {
                let mut x = base;
                let l = r.range(0, 7);
                x[l] = edge_byte(r);
                if r.pct(40) {
                    for y in x.iter_mut().skip(l + 1) {
                        *y = edge_byte(r);
                    }
                }
                let t = r.below(3);
                if t < 2 || k.hot.is_empty() {
                    k.hot.push(be(x));
                } else {
                    k.bg.push(be(x));
                }
            }
            k.bg.push(be(base));
            if r.pct(50) {
                k.hot.push(be(base));
            }
        }
        3 => {
            let mut all = vec![0usize, 1, usize::MAX, usize::MAX - 1, 255, 256, 257, 65535, 65536, 1 << 56, (1 << 56) - 1, 1 << 63];
            for _ in 0..6 {
                let b = 1usize << r.below(64);
                all.push(b);
                all.push(b - 1);
                all.push(b.wrapping_add(1));
            }
            r.shuffle(&mut all);
            let n = r.range(2, 12).min(all.len());
            k.hot.extend(all.iter().take(nhot));
            k.bg.extend(all.iter().skip(nhot / 2).take(n));
            k.spare.extend(all.iter().skip(nhot + n).take(4));
        }
        // keys below inner nodes that stay when the keys are gone
        6 => {
            let base = base_key(r);
            let a = r.range(0, 5);
            let b = r.range(a + 1, 6);
            let mut bytes: Vec<u8> = (0..=255).collect();
            r.shuffle(&mut bytes);
            for i in 0..r.range(2, 5) {
                let mut x = base;
                x[a] = bytes[i];
                for v in [1u8, 2] {
                    x[b] = base[b].wrapping_add(v);
                    k.skel.push(be(x));
                }
                for _ in 0..r.range(1, 2) {
                    x[b] = base[b].wrapping_add(r.below(4) as u8);
                    k.hot.push(be(x));
                }
            }
            r.shuffle(&mut k.hot);
            k.hot.truncate(hot.max(2) + 1);
        }
        // very few keys, so that the tree and its nodes become empty all the time
        _ => {
            let base = base_key(r);
            for _ in 0..nhot.clamp(1, 3) {
                let mut x = base;
                for _ in 0..r.below(3) {
                    let l = r.pick(&[7usize, 7, 6, 6, 5, 3, 0]);
                    x[l] = r.pick(&[0u8, 1, 2, 255]);
                }
                k.hot.push(be(x));
            }
        }
    }
}

pub struct Vals {
    next: usize,
    uniq: bool,
}
impl Vals {
    fn get(&mut self, r: &mut Rng) -> usize {
        if self.uniq {
            self.next += 1;
            // distinct, with varied bit patterns
            (self.next << 8) | (self.next.wrapping_mul(7) & 15) | (0x7000_0000_0000_0000 * (self.next & 1))
        } else {
            r.pick(&[0usize, 1, 2, 3, 4, 5, usize::MAX, 1 << 63])
        }
    }
}

fn fault(r: &mut Rng, c: &Cfg, o: &mut OpX) {
    if c.weak > 0 && r.pct(c.weak) {
        o.weak = r.pick(&[u64::MAX, u64::MAX, 1, 2, 4, 0x5555_5555_5555_5555]);
    }
    match o.op {
        Op::Insert(..) | Op::Coi(..) | Op::Cip(..) | Op::Remove(..) | Op::Cas(..) => {
            if r.pct(c.oom) {
                o.oom = r.pick(&[1u64, 2, 4, 3, 6, 7, 5, u64::MAX, u64::MAX]);
            }
            if matches!(o.op, Op::Coi(..) | Op::Cip(..)) && r.pct(c.panic) {
                o.panic = r.pick(&[1u32, 1, 1, 2, 3]);
            }
        }
        _ => {}
    }
}

fn bound(r: &mut Rng, k: &Keys) -> usize {
    let any = |r: &mut Rng| {
        if r.pct(60) || k.bg.is_empty() {
            k.hot[r.below(k.hot.len())]
        } else {
            k.bg[r.below(k.bg.len())]
        }
    };
    let x = any(r);
    match r.below(12) {
        0 | 1 => x,
        2 | 3 => x.wrapping_add(1),
        4 => x.wrapping_sub(1),
        5 => 0,
        6 => usize::MAX,
        7 => x & !((1usize << (8 * r.range(1, 7))) - 1),
        8 => x | ((1usize << (8 * r.range(1, 7))) - 1),
        9 => x ^ (1usize << r.below(64)),
        10 => {
            let l = r.below(8);
            let mut b = x.to_be_bytes();
            b[l] = edge_byte(r);
            be(b)
        }
        _ => r.u() as usize,
    }
}

fn gen_range(r: &mut Rng, k: &Keys, total: usize) -> Op {
    let (mut lo, mut hi) = match r.below(4) {
        0 => (0, usize::MAX),
        1 => (0, bound(r, k)),
        _ => (bound(r, k), bound(r, k)),
    };
    if lo > hi && r.pct(90) {
        std::mem::swap(&mut lo, &mut hi);
    }
    let n = match r.below(8) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => total,
        4 => total + 1,
        5 => r.pick(&[0usize, 4, 16, 48]),
        _ => total + 8,
    };
    Op::Range(lo, hi, n)
}

fn gen_op(r: &mut Rng, c: &Cfg, w: &[u32; 10], k: &Keys, v: &mut Vals) -> OpX {
    let key = {
        let x = r.below(100);
        if x < 84 || (k.bg.is_empty() && k.spare.is_empty()) {
            k.hot[r.below(k.hot.len())]
        } else if (x < 94 || k.spare.is_empty()) && !k.bg.is_empty() {
            k.bg[r.below(k.bg.len())]
        } else if !k.spare.is_empty() {
            k.spare[r.below(k.spare.len())]
        } else {
            bound(r, k)
        }
    };
    let op = match r.weighted(w) {
        W_GET => Op::Get(key),
        W_INS => Op::Insert(key, v.get(r)),
        W_REM => Op::Remove(key),
        W_CIP => {
            let f = match r.below(10) {
                0..=3 => F::Set(v.get(r)),
                4 | 5 => F::Add(r.range(1, 3)),
                6 | 7 => F::Del,
                8 => F::Same(0),
                _ => F::DelOdd(v.get(r)),
            };
            Op::Cip(key, f)
        }
        W_COI => {
            let f = match r.below(6) {
                0..=2 => F::Set(v.get(r)),
                3 | 4 => F::Add(r.range(1, 3)),
                _ => F::Same(v.get(r)),
            };
            Op::Coi(key, f)
        }
        W_CAS => {
            let old = if r.pct(75) { SEEN } else { v.get(r) };
            let new = if r.pct(25) { None } else { Some(v.get(r)) };
            Op::Cas(key, old, new)
        }
        W_RANGE => gen_range(r, k, k.bg.len() + k.hot.len()),
        W_EMPTY => Op::IsEmpty,
        W_STATS => Op::Stats,
        _ => {
            if r.pct(80) {
                Op::Gc(r.range(1, 4))
            } else {
                Op::Repin
            }
        }
    };
    let mut o = ox(op);
    fault(r, c, &mut o);
    if c.stall > 0 && matches!(o.op, Op::Get(_) | Op::Range(..) | Op::IsEmpty | Op::Stats) && r.pct(c.stall) {
        o.stall = Some(r.pick(&[0u64, 1, 2, 3, 4, 6, 8, 12, 16, 24, 40, 80]));
    }
    o
}

fn legal(f: u8, o: &OpX) -> bool {
    !subject::is_u64(f) || !matches!(o.op, Op::Cip(..) | Op::Coi(..) | Op::Cas(..) | Op::IsEmpty | Op::Stats)
}

fn degrade(r: &mut Rng, o: &mut OpX, v: &mut Vals) {
    o.op = match o.op {
        Op::Cip(k, F::Del) | Op::Cas(k, _, None) => Op::Remove(k),
        Op::Cip(k, _) | Op::Coi(k, _) | Op::Cas(k, _, Some(_)) => Op::Insert(k, v.get(r)),
        Op::IsEmpty => Op::Range(0, usize::MAX, 1),
        _ => Op::Range(0, usize::MAX, 64),
    };
    o.panic = 0;
}

fn gen_pre(r: &mut Rng, c: &Cfg, k: &Keys, v: &mut Vals, tree: u8) -> Vec<OpX> {
    let mut pre = vec![];
    for x in k.skel.iter() {
        pre.push(ox(Op::Insert(*x, v.get(r))));
    }
    for x in k.skel.iter() {
        pre.push(ox(Op::Remove(*x)));
    }
    let mut ins: Vec<usize> = k.bg.clone();
    let churn = r.pct(40);
    if churn {
        ins.extend(&k.spare);
    }
    // about half of the hot keys start present
    for h in &k.hot {
        if r.pct(50) {
            ins.push(*h);
        }
    }
    r.shuffle(&mut ins);
    let mut s = std::collections::HashSet::new();
    ins.retain(|x| s.insert(*x));
    for x in &ins {
        pre.push(ox(Op::Insert(*x, v.get(r))));
    }
    if churn {
        // holes, shrunk nodes, emptied nodes
        let mut rem: Vec<usize> = k.spare.clone();
        if r.pct(50) {
            let all = r.pct(20);
            for x in &ins {
                if all || r.pct(25) {
                    rem.push(*x);
                }
            }
        }
        r.shuffle(&mut rem);
        for x in rem {
            pre.push(ox(Op::Remove(x)));
            if r.pct(8) {
                pre.push(ox(Op::Insert(x, v.get(r))));
            }
        }
    }
    for o in pre.iter_mut() {
        o.tree = tree;
        if c.oom > 0 && r.pct(6) && matches!(o.op, Op::Insert(..)) {
            o.oom = 1;
        }
    }
    pre
}

pub fn gen_program(r: &mut Rng, c: &Cfg) -> Program {
    let mut p = Program::default();
    let nt = if r.pct(c.two_trees) { 2 } else { 1 };
    for _ in 0..nt {
        p.facades.push(r.weighted(&c.facades) as u8);
    }
    p.uniq = r.pct(c.uniq);
    let mut v = Vals { next: 0x100 + r.below(64), uniq: p.uniq };
    let keys: Vec<Keys> = if nt == 2 && r.pct(60) {
        let s = r.0;
        let k0 = gen_keys(r, c);
        let mut r2 = Rng(s);
        let k1 = gen_keys(&mut r2, c); // same keys in both trees
        vec![k0, k1]
    } else {
        (0..nt).map(|_| gen_keys(r, c)).collect()
    };
    p.pre = vec![];
    let mut w = c.w;
    // vary the mix: sometimes mute one kind of operation or favour another
    for _ in 0..r.below(3) {
        let i = r.below(10);
        if w[i] > 0 {
            w[i] = if r.pct(50) { w[i] * 4 } else { w[i].div_ceil(4) };
        }
    }
    for t in 0..nt {
        let pre = gen_pre(r, c, &keys[t], &mut v, t as u8);
        p.pre.extend(pre);
    }
    if nt == 2 {
        r.shuffle(&mut p.pre);
    }
    let one = |r: &mut Rng, v: &mut Vals, w: &[u32; 10], p: &Program| {
        let t = r.below(nt);
        let mut o = gen_op(r, c, w, &keys[t], v);
        o.tree = t as u8;
        if !legal(p.facades[t], &o) {
            degrade(r, &mut o, v);
        }
        o
    };
    // the sequential tail may use every operation the check's front ends offer
    let mut pw = w;
    for i in 0..10 {
        if pw[i] == 0 && i != W_GC && i != W_STATS {
            pw[i] = 2;
        }
    }
    if r.pct(c.seq) {
        let n = r.range(60, 300);
        let mut ks = vec![];
        for k in &keys {
            let mut a: Vec<usize> = k.hot.iter().chain(k.bg.iter()).chain(k.spare.iter()).cloned().collect();
            a.dedup();
            ks.push(Keys { hot: a, bg: vec![], spare: vec![], skel: vec![] });
        }
        if r.pct(4) {
            bulk(r, &mut v, &mut ks[0], &mut p);
        }
        // phases of growth and shrinkage
        let mut phase = r.below(3);
        for i in 0..n {
            if i % 40 == 0 {
                phase = r.below(3);
            }
            let mut w2 = pw;
            match phase {
                0 => {
                    w2[W_INS] *= 5;
                }
                1 => {
                    w2[W_REM] *= 6;
                }
                _ => {}
            }
            let t = r.below(nt);
            let mut o = gen_op(r, c, &w2, &ks[t], &mut v);
            o.stall = None;
            o.tree = t as u8;
            if !legal(p.facades[t], &o) {
                degrade(r, &mut o, &mut v);
            }
            p.pre.push(o);
            if c.renew > 0 && r.below(120) == 0 {
                p.pre.push(OpX { tree: t as u8, ..ox(Op::Renew) });
            }
        }
    } else {
        let n = if r.pct(5) { r.range(5, 6) } else { r.range(c.threads.0, c.threads.1) };
        for _ in 0..n {
            let m = r.range(c.ops.0, c.ops.1);
            let t: Vec<OpX> = (0..m).map(|_| one(r, &mut v, &w, &p)).collect();
            p.tasks.push(t);
        }
        if r.pct(c.mover) {
            mover(r, c, &w, &keys[0], &mut v, &mut p);
        }
        if r.pct(3) {
            burst(r, &keys[0], &mut v, &mut p);
        }
    }
    p.private = vec![0; nt];
    let mut extra_tree = None;
    if r.pct(c.renew) {
        extra_tree = Some(renewed_tree(r, c, &w, &mut v, &mut p));
    }
    let total = p.facades.len();
    if total > 1 {
        p.xguard = r.pct(35);
        nest(r, &keys, &extra_tree, &mut v, &mut p);
    }
    p.long = (0..=p.tasks.len()).map(|_| r.pct(c.long_guard)).collect();
    // sequential tail
    let n = r.range(2, 14);
    for _ in 0..n {
        let mut o = one(r, &mut v, &pw, &p);
        o.stall = None;
        p.post.push(o);
    }
    if let Some(k) = &extra_tree {
        for _ in 0..r.range(0, 6) {
            let o = tree_op(r, c, &pw, k, &mut v, &p, nt);
            let at = r.below(p.post.len() + 1);
            p.post.insert(at, o);
        }
    }
    if c.renew > 0 && r.pct(12) {
        let o = OpX { tree: r.below(total) as u8, ..ox(Op::Renew) };
        let at = r.below(p.post.len() + 1);
        p.post.insert(at, o);
    }
    for t in 0..nt {
        if r.pct(25) {
            // every key once more: nothing may be left locked or unusable
            let mut all: Vec<usize> = keys[t].hot.iter().chain(keys[t].spare.iter()).cloned().collect();
            all.sort();
            all.dedup();
            r.shuffle(&mut all);
            for k in all {
                let op = if r.pct(50) { Op::Insert(k, v.get(r)) } else { Op::Remove(k) };
                p.post.push(OpX { tree: t as u8, ..ox(op) });
            }
        }
        if r.pct(15) {
            let mut all: Vec<usize> = keys[t].hot.iter().chain(keys[t].spare.iter()).chain(keys[t].bg.iter()).cloned().collect();
            all.sort();
            all.dedup();
            r.shuffle(&mut all);
            for k in all {
                p.post.push(OpX { tree: t as u8, ..ox(Op::Remove(k)) });
            }
            if !subject::is_u64(p.facades[t]) {
                p.post.push(OpX { tree: t as u8, ..ox(Op::IsEmpty) });
            }
        }
    }
    p
}

/// Hundreds or thousands of keys.
fn bulk(r: &mut Rng, v: &mut Vals, k: &mut Keys, p: &mut Program) {
    let base = base_key(r);
    let a = r.range(0, 6);
    let b = if r.pct(60) { 7 } else { r.range(a + 1, 7) };
    let (na, nb) = r.pick(&[(2usize, 256usize), (3, 200), (256, 3), (40, 40), (17, 49), (256, 8), (5, 256)]);
    let mut all = vec![];
    for i in 0..na {
        for j in 0..nb {
            let mut x = base;
            x[a] = base[a].wrapping_add(i as u8);
            x[b] = base[b].wrapping_add(j as u8);
            all.push(be(x));
        }
    }
    match r.below(3) {
        0 => r.shuffle(&mut all),
        1 => all.reverse(),
        _ => {}
    }
    for x in &all {
        p.pre.push(ox(Op::Insert(*x, v.get(r))));
    }
    for n in [0, all.len() - 1, all.len(), 300] {
        p.pre.push(ox(Op::Range(0, usize::MAX, n)));
    }
    let keep = r.below(100) as u32;
    let mut left = vec![];
    for x in &all {
        if r.pct(keep) {
            left.push(*x);
        } else {
            p.pre.push(ox(Op::Remove(*x)));
        }
    }
    p.pre.push(ox(Op::Range(0, usize::MAX, left.len())));
    let n = r.range(10, 60);
    for _ in 0..n {
        k.hot.push(all[r.below(all.len())]);
    }
}

fn tree_op(r: &mut Rng, c: &Cfg, w: &[u32; 10], k: &Keys, v: &mut Vals, p: &Program, t: usize) -> OpX {
    let mut o = gen_op(r, c, w, k, v);
    o.stall = None;
    o.tree = t as u8;
    if !legal(p.facades[t], &o) {
        degrade(r, &mut o, v);
    }
    o
}

/// A further tree that only one thread touches; that thread drops it and starts again
/// while the other threads are in the middle of whatever they do elsewhere.
fn renewed_tree(r: &mut Rng, c: &Cfg, w: &[u32; 10], v: &mut Vals, p: &mut Program) -> Keys {
    let t = p.facades.len();
    p.facades.push(r.weighted(&c.facades) as u8);
    let k = gen_keys(r, c);
    let mut pre = gen_pre(r, c, &k, v, t as u8);
    if r.pct(50) {
        pre.truncate(12);
    }
    p.pre.extend(pre);
    if p.tasks.is_empty() {
        p.private.push(0);
        for _ in 0..r.range(2, 20) {
            let o = if r.pct(25) { OpX { tree: t as u8, ..ox(Op::Renew) } } else { tree_op(r, c, w, &k, v, p, t) };
            let n = p.pre.len();
            let at = n - r.below(n.min(60) + 1);
            p.pre.insert(at, o);
        }
        return k;
    }
    let me = r.below(p.tasks.len());
    p.private.push(me as u8 + 1);
    let n = r.range(1, 4);
    let mut ops: Vec<OpX> = (0..n).map(|_| tree_op(r, c, w, &k, v, p, t)).collect();
    for _ in 0..r.pick(&[1usize, 1, 2]) {
        let at = r.below(ops.len() + 1);
        ops.insert(at, OpX { tree: t as u8, ..ox(Op::Renew) });
    }
    let mut at = 0;
    for o in ops {
        at = r.range(at, p.tasks[me].len());
        p.tasks[me].insert(at, o);
        at += 1;
    }
    k
}

/// Callbacks that use another tree.
fn nest(r: &mut Rng, keys: &[Keys], extra: &Option<Keys>, v: &mut Vals, p: &mut Program) {
    let total = p.facades.len();
    let share = r.pick(&[0u32, 20, 60]);
    let mut all: Vec<&mut OpX> = p.pre.iter_mut().chain(p.tasks.iter_mut().flatten()).collect();
    for o in all.iter_mut() {
        if !matches!(o.op, Op::Cip(..) | Op::Coi(..)) || o.tree as usize + 1 >= total || !r.pct(share) {
            continue;
        }
        let t = r.range(o.tree as usize + 1, total - 1);
        let k = match (keys.get(t), extra) {
            (Some(k), _) => k,
            (None, Some(k)) => k,
            _ => continue,
        };
        let key = k.hot[r.below(k.hot.len())];
        o.nest = Some((t as u8, key, if r.pct(50) { Some(v.get(r)) } else { None }));
    }
}

/// One thread moves an entry from key to key, so that one of them is always there;
/// the others mostly look.
fn mover(r: &mut Rng, c: &Cfg, w: &[u32; 10], k: &Keys, v: &mut Vals, p: &mut Program) {
    if k.hot.len() < 2 || p.tasks.len() < 2 {
        return;
    }
    let mut w = *w;
    for i in [W_INS, W_REM, W_CIP, W_COI, W_CAS] {
        w[i] = 0;
    }
    if w.iter().all(|x| *x == 0) {
        return;
    }
    let mut cur = k.hot[r.below(k.hot.len())];
    if r.pct(60) {
        // nothing else in the tree
        for x in k.hot.iter().chain(k.bg.iter()).chain(k.spare.iter()) {
            if *x != cur {
                p.pre.push(ox(Op::Remove(*x)));
            }
        }
    }
    p.pre.push(ox(Op::Insert(cur, v.get(r))));
    let m = r.pick(&[1usize, 1, 2, 3]);
    let mut t = vec![];
    for _ in 0..m {
        let mut next = cur;
        while next == cur {
            next = k.hot[r.below(k.hot.len())];
        }
        t.push(ox(Op::Insert(next, v.get(r))));
        t.push(ox(Op::Remove(cur)));
        cur = next;
    }
    p.tasks[0] = t;
    for i in 1..p.tasks.len() {
        for o in p.tasks[i].iter_mut() {
            if i == 1 || r.pct(70) {
                *o = gen_op(r, c, &w, k, v);
                if !legal(p.facades[0], o) {
                    degrade(r, o, v);
                }
            }
        }
    }
}

/// One thread writes a power of two times to the same place while the others are in the
/// middle of an operation or two: no counter may be so small that it comes round.
fn burst(r: &mut Rng, k: &Keys, v: &mut Vals, p: &mut Program) {
    if p.tasks.len() < 2 {
        return;
    }
    let n = r.pick(&[8usize, 16, 32, 64, 64, 128, 128, 256]);
    let hot = k.hot[r.below(k.hot.len())];
    if r.pct(1) {
        let rep = r.pick(&[1024u32, 16384, 16384]) - 1;
        p.tasks[0] = vec![OpX { rep, ..ox(Op::Insert(hot, v.get(r))) }];
        p.pre.push(ox(Op::Insert(hot, v.get(r))));
        p.tasks.truncate(2);
        p.tasks[1].truncate(1);
        if r.pct(60) {
            let o = match r.below(4) {
                0 => Op::Insert(hot, v.get(r)),
                1 => Op::Remove(hot),
                _ => p.tasks[1][0].op,
            };
            p.tasks[1] = vec![ox(o)];
        }
        return;
    }
    let churn = r.pct(30);
    p.tasks[0] = (0..n)
        .map(|i| ox(if churn && i % 2 == 1 { Op::Remove(hot) } else { Op::Insert(hot, v.get(r)) }))
        .collect();
    p.tasks.truncate(3);
    for t in p.tasks[1..].iter_mut() {
        t.truncate(2);
    }
}

/// What the sequential dry run of a program looked like.
pub struct Dry {
    pub total: u64,
    pub task_ev: Vec<u64>,
    pub interesting: Vec<Vec<u64>>,
}

pub fn interesting(kinds: &[Vec<u8>]) -> Vec<Vec<u64>> {
    kinds
        .iter()
        .map(|k| {
            k.iter()
                .enumerate()
                .filter(|(_, x)| matches!(**x, K_ALOAD | K_ARMW | K_WRITE | K_ALLOC | K_FREE | K_BOUND | K_USER))
                .map(|(i, _)| i as u64)
                .collect()
        })
        .collect()
}

pub fn gen_sched(r: &mut Rng, p: &Program, d: &Dry) -> (Strat, Sched) {
    let n = p.tasks.len();
    let mut s = Sched { first: r.range(1, n.max(1)), cap1: 30_000 + 20 * d.total, switches: vec![] };
    if n < 2 {
        return (Strat::Plan, s);
    }
    if n == 2 && p.tasks[0].len() == 1 && p.tasks[0][0].rep > 0 && d.task_ev[1] > 0 && r.pct(75) {
        // the other one is interrupted once, for the whole time
        s.first = 2;
        s.switches = vec![Switch { task: 2, ev: r.below(d.task_ev[1] as usize) as u64, to: 1 }];
        return (Strat::Plan, s);
    }
    match r.below(100) {
        0..=39 => {
            let k = match r.below(10) {
                0..=3 => 1,
                4..=6 => 2,
                7 | 8 => 3,
                _ => 5,
            };
            for _ in 0..k {
                let t = r.range(1, n);
                if d.task_ev[t - 1] == 0 {
                    continue;
                }
                let iv = &d.interesting[t - 1];
                let ev = if r.pct(65) && !iv.is_empty() {
                    iv[r.below(iv.len())] + r.below(2) as u64
                } else {
                    r.below(d.task_ev[t - 1] as usize) as u64
                };
                let mut to = r.range(1, n);
                if to == t {
                    to = to % n + 1;
                }
                s.switches.push(Switch { task: t, ev, to });
            }
            if r.pct(50) {
                for t in 1..=n {
                    s.switches.push(Switch { task: t, ev: u64::MAX, to: r.range(1, n) });
                }
            }
            (Strat::Plan, s)
        }
        40..=74 => {
            let base = u32::MAX >> r.range(2, 10);
            let mut q = [base; NKIND];
            if r.pct(60) {
                let b = u32::MAX >> r.range(1, 4);
                for k in [K_ALOAD, K_ARMW, K_ALLOC, K_FREE, K_USER, K_BOUND] {
                    if r.pct(60) {
                        q[k as usize] = b;
                    }
                }
                if r.pct(40) {
                    q[K_WRITE as usize] = b;
                }
            }
            (Strat::Rand(q), s)
        }
        _ => {
            let k = r.range(1, 4);
            let mut c: Vec<u64> = (0..k).map(|_| r.below((d.total as usize * 3 / 2).max(2)) as u64).collect();
            c.sort();
            (Strat::Pct(c), s)
        }
    }
}
