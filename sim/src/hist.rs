//! Checks over a recorded history.
use crate::case::*;
use rt::Vc;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Val(Option<usize>),
    Ins(Option<usize>),
    Oom,
    Cip(Option<(usize, Option<usize>)>),
    Cas(Result<Option<usize>, Option<usize>>),
    Range(Vec<(usize, usize)>),
    Bool(bool),
    Stats(Box<StatNums>),
    Panicked,
    /// the tree was dropped; this was its generation
    Renewed(u32),
    Unit,
}

/// The numbers in the displayed statistics.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct StatNums {
    pub kv: usize,
    pub nodes: usize,
    pub entries: usize,
    /// nodes per kind, smallest kind first, summed over the levels
    pub kinds: Option<[usize; 4]>,
    /// per level, as displayed: number and load factor of the nodes of each kind
    pub levels: Vec<(usize, [(usize, f64); 4])>,
    pub load: Option<f64>,
    pub mb: Option<usize>,
    /// nodes that existed at some time during the call
    pub max_nodes: usize,
}

const SCALE: [f64; 4] = [4.0, 16.0, 48.0, 256.0];

/// The displayed details follow from the totals (up to the two digits displayed).
fn stat_details(st: &StatNums) -> Result<(), String> {
    if st.levels.is_empty() {
        return Ok(());
    }
    let (mut entries, mut slack, mut fill) = (0.0, 0.5, 0.0);
    let mut below = 1;
    for (i, (level, kinds)) in st.levels.iter().enumerate() {
        let count: usize = kinds.iter().map(|k| k.0).sum();
        if *level != i || i == 0 && count != 1 {
            return Err(format!("{count} nodes at level {level}, listed as number {i}"));
        }
        let mut here = 0.0;
        for k in 0..4 {
            let (c, f) = (kinds[k].0 as f64, kinds[k].1);
            if !(0.0..=1.005).contains(&f) || c == 0.0 && f != 0.0 {
                return Err(format!("load factor {f} for {c} nodes at level {level}"));
            }
            here += c * f * SCALE[k];
            slack += c * 0.0051 * SCALE[k];
            fill += c * f;
        }
        entries += here;
        if count as f64 > below as f64 + slack {
            return Err(format!("{count} nodes at level {level}, which has only room for {below}"));
        }
        below = (here + slack).ceil() as usize;
    }
    if (entries - st.entries as f64).abs() > slack {
        return Err(format!("the load factors amount to {entries:.1} entries, not to {}", st.entries));
    }
    match st.load {
        Some(l) if (l - fill / st.nodes as f64).abs() > 0.011 => {
            Err(format!("overall load factor {l} although the nodes are filled to {:.3}", fill / st.nodes as f64))
        }
        _ => Ok(()),
    }
}

#[derive(Clone, Debug)]
pub struct Call {
    pub arg: Option<usize>,
    pub ret: Option<usize>,
    pub vc: Vc,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub task: usize,
    pub idx: usize,
    pub ox: OpX,
    pub cas_old: usize,
    pub inv: u64,
    pub ret: u64,
    pub inv_clock: u32,
    pub vc: Vc,
    pub res: Res,
    pub calls: Vec<Call>,
    pub oom_fired: u32,
}

pub type Bad = (&'static str, String);

pub fn recstr(r: &Rec) -> String {
    let who = if r.task == 0 { "driver".to_string() } else { format!("t{}", r.task) };
    let mut res = format!("{:x?}", r.res);
    if res.len() > 400 {
        res.truncate(400);
        res.push_str("...");
    }
    format!("[{:>4},{:>4}] {who:6} {} => {res}", r.inv, r.ret, opstr(&r.ox))
}

/// Coherence of what callbacks were given and what the operation reported.
pub fn check_calls(r: &Rec) -> Result<(), Bad> {
    match (&r.ox.op, &r.res) {
        (Op::Cip(..), Res::Cip(Some((o, n)))) => match r.calls.last() {
            Some(c) if c.arg == Some(*o) && c.ret == *n => Ok(()),
            c => Err(("rmw", format!("reported (old, new) is not what its callback last saw and returned ({:x?}): {}", c.map(|c| (c.arg, c.ret)), recstr(r)))),
        },
        (Op::Coi(..), Res::Ins(o)) => match r.calls.last() {
            Some(c) if c.arg == *o => Ok(()),
            c => Err(("rmw", format!("reported old value is not what its callback last saw ({:x?}): {}", c.map(|c| c.arg), recstr(r)))),
        },
        (Op::Cas(_, _, n), Res::Cas(Ok(x))) if x != n => {
            Err(("rmw", format!("successful compare_exchange returned something other than the new value: {}", recstr(r))))
        }
        (Op::Cas(..), Res::Cas(Err(Some(a)))) if *a == r.cas_old => {
            Err(("rmw", format!("compare_exchange failed although it reports the expected value {:x} as current: {}", a, recstr(r))))
        }
        (Op::Coi(..) | Op::Insert(..), Res::Oom) if r.oom_fired == 0 => {
            Err(("oom", format!("reports out of memory although every allocation succeeded: {}", recstr(r))))
        }
        _ => Ok(()),
    }
}

/// What a completed operation says about one key: it held `pre` at the operation's
/// linearization point and `post` right after it.
pub fn key_effect(r: &Rec) -> Option<(usize, Option<usize>, Option<usize>)> {
    Some(match (&r.ox.op, &r.res) {
        (Op::Get(k), Res::Val(v)) => (*k, *v, *v),
        (Op::Insert(k, v), Res::Ins(o)) => (*k, *o, Some(*v)),
        (Op::Remove(k), Res::Val(o)) => (*k, *o, None),
        (Op::Cip(k, _), Res::Cip(Some((o, n)))) => (*k, Some(*o), *n),
        (Op::Cip(k, _), Res::Cip(None)) => (*k, None, None),
        (Op::Coi(k, _), Res::Ins(o)) => (*k, *o, r.calls.last().and_then(|c| c.ret)),
        (Op::Cas(k, _, n), Res::Cas(Ok(_))) => (*k, Some(r.cas_old), *n),
        (Op::Cas(k, _, _), Res::Cas(Err(a))) => (*k, *a, *a),
        _ => return None,
    })
}

#[derive(Clone, Copy)]
pub struct KOp {
    pub inv: u64,
    pub ret: u64,
    pub pre: Want,
    pub post: Option<Option<usize>>,
    pub rec: usize,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    Is(Option<usize>),
    Present,
    Absent,
}

/// Wing-Gong-Lowe search for one key. Operations that do not overlap form chains (one per
/// thread at most), so what has been linearized is a position in each of them.
/// None: too many operations to decide.
pub fn linearizable(ops: &mut Vec<KOp>, init: Option<usize>) -> Option<bool> {
    ops.sort_by_key(|o| o.inv);
    let mut chains: Vec<Vec<KOp>> = vec![];
    for o in ops.iter() {
        match chains.iter_mut().find(|c| c.last().is_some_and(|l| l.ret < o.inv)) {
            Some(c) => c.push(*o),
            None => chains.push(vec![*o]),
        }
    }
    if chains.len() > 8 || chains.iter().any(|c| c.len() >= 0xffff) {
        return None;
    }
    let mut seen: HashSet<(u128, Option<usize>)> = HashSet::new();
    let mut stack = vec![(0u128, init)];
    while let Some((pos, st)) = stack.pop() {
        if !seen.insert((pos, st)) {
            continue;
        }
        if seen.len() > 400_000 {
            return None;
        }
        let next = |c: usize| chains[c].get((pos >> (16 * c)) as usize & 0xffff);
        let minret = match (0..chains.len()).filter_map(|c| next(c)).map(|o| o.ret).min() {
            Some(r) => r,
            None => return Some(true),
        };
        for c in (0..chains.len()).rev() {
            let Some(o) = next(c) else { continue };
            if o.inv > minret {
                continue;
            }
            let ok = match o.pre {
                Want::Is(x) => x == st,
                Want::Present => st.is_some(),
                Want::Absent => st.is_none(),
            };
            if ok {
                stack.push((pos + (1 << (16 * c)), o.post.unwrap_or(st)));
            }
        }
    }
    Some(false)
}

pub fn scan_form(r: &Rec) -> Result<(), Bad> {
    if let (Op::Range(lo, hi, n), Res::Range(v)) = (&r.ox.op, &r.res) {
        if v.len() > *n {
            return Err(("scan", format!("more entries than the buffer holds: {}", recstr(r))));
        }
        for w in v.windows(2) {
            if w[0].0 >= w[1].0 {
                return Err(("scan", format!("keys not strictly ascending: {}", recstr(r))));
            }
        }
        for (k, _) in v {
            if k < lo || k >= hi {
                return Err(("scan", format!("key {k:x} outside [start, end): {}", recstr(r))));
            }
        }
    }
    Ok(())
}

/// Is `k` settled by this scan, and how?
pub fn scan_reads(r: &Rec, k: usize) -> Option<Option<usize>> {
    if let (Op::Range(lo, hi, n), Res::Range(v)) = (&r.ox.op, &r.res) {
        if lo >= hi || k < *lo || k >= *hi || *n == 0 {
            return None;
        }
        if let Ok(i) = v.binary_search_by_key(&k, |e| e.0) {
            return Some(Some(v[i].1));
        }
        if v.len() < *n || k < v.last().unwrap().0 {
            return Some(None);
        }
    }
    None
}

pub struct Counts {
    pub keys_checked: u64,
    pub undecided: u64,
    pub empties_checked: u64,
    pub stats_checked: u64,
    pub hb_pairs: u64,
}

pub fn op_key(o: &Op) -> Option<usize> {
    match o {
        Op::Get(k) | Op::Insert(k, _) | Op::Remove(k) | Op::Cip(k, _) | Op::Coi(k, _) | Op::Cas(k, _, _) => Some(*k),
        _ => None,
    }
}

/// All history checks for one tree. `init` is the content before the concurrent phase;
/// `recs` are the operations of the concurrent phase followed by the driver's final reads.
pub fn check_history(recs: &[&Rec], init: &BTreeMap<usize, usize>, cnt: &mut Counts) -> Result<(), Bad> {
    for r in recs {
        check_calls(r)?;
        scan_form(r)?;
    }
    let mut keys: BTreeSet<usize> = init.keys().cloned().collect();
    for r in recs {
        if let Some(k) = op_key(&r.ox.op) {
            keys.insert(k);
        }
    }
    for r in recs {
        if let Res::Range(v) = &r.res {
            for (k, x) in v {
                if !keys.contains(k) {
                    return Err(("scan", format!("a key that was never inserted is reported ({k:x} => {x:x}): {}", recstr(r))));
                }
            }
        }
    }
    let mut by_key: HashMap<usize, Vec<KOp>> = HashMap::new();
    for (i, r) in recs.iter().enumerate() {
        if let Some((k, pre, post)) = key_effect(r) {
            by_key.entry(k).or_default().push(KOp { inv: r.inv, ret: r.ret, pre: Want::Is(pre), post: Some(post), rec: i });
        }
    }
    let show = |k: usize, ops: &Vec<KOp>| {
        let mut s = format!("key {k:x}, initially {:x?}:\n", init.get(&k));
        // of a thread that did the same many times, only what is next to others' operations
        let mut many = [0usize; 16];
        for o in ops {
            many[recs[o.rec].task & 15] += 1;
        }
        let few = |o: &KOp| many[recs[o.rec].task & 15] <= 80;
        let mut hidden = 0;
        for (i, o) in ops.iter().enumerate() {
            if few(o) || i < 3 || i + 3 > ops.len() || few(&ops[i - 1]) || few(&ops[i + 1]) || few(&ops[i - 2]) {
                s.push_str(&format!("  {}\n", recstr(recs[o.rec])));
            } else {
                hidden += 1;
            }
        }
        if hidden > 0 {
            s.push_str(&format!("  ({hidden} more operations)\n"));
        }
        s
    };
    let has_scan = recs.iter().any(|r| matches!(r.res, Res::Range(_)));
    let stats: Vec<usize> = (0..recs.len()).filter(|&i| recs[i].task != 0 && matches!(recs[i].res, Res::Stats(..))).collect();
    let mut smin = vec![0usize; stats.len()];
    let mut smax = vec![0usize; stats.len()];
    for &k in &keys {
        let mut ops = by_key.remove(&k).unwrap_or_default();
        let i0 = init.get(&k).copied();
        cnt.keys_checked += 1;
        match linearizable(&mut ops, i0) {
            Some(true) => {}
            Some(false) => return Err(("lin", format!("no sequential order of these operations explains their results; {}", show(k, &ops)))),
            None => cnt.undecided += 1,
        }
        if has_scan {
            let point_only = ops.clone();
            for (i, r) in recs.iter().enumerate() {
                if let Some(v) = scan_reads(r, k) {
                    ops.push(KOp { inv: r.inv, ret: r.ret, pre: Want::Is(v), post: None, rec: i });
                }
            }
            if ops.len() > point_only.len() {
                match linearizable(&mut ops, i0) {
                    Some(true) => {}
                    Some(false) => {
                        // name one scan that alone cannot be explained, if there is one
                        for o in ops.iter().filter(|o| o.post.is_none()) {
                            let mut one = point_only.clone();
                            one.push(*o);
                            if linearizable(&mut one, i0) == Some(false) {
                                return Err(("scan", format!("a scan's view of a key is not one the key had while the scan ran; {}", show(k, &one))));
                            }
                        }
                        return Err(("scan", format!("the scans' views of a key contradict each other; {}", show(k, &ops))));
                    }
                    None => cnt.undecided += 1,
                }
            }
            ops = point_only;
        }
        for (j, &i) in stats.iter().enumerate() {
            let mut a = ops.clone();
            a.push(KOp { inv: recs[i].inv, ret: recs[i].ret, pre: Want::Absent, post: None, rec: i });
            if linearizable(&mut a, i0) == Some(false) {
                smin[j] += 1;
            }
            let mut p = ops.clone();
            p.push(KOp { inv: recs[i].inv, ret: recs[i].ret, pre: Want::Present, post: None, rec: i });
            if linearizable(&mut p, i0) != Some(false) {
                smax[j] += 1;
            }
        }
    }
    for (j, &i) in stats.iter().enumerate() {
        if let Res::Stats(st) = &recs[i].res {
            let kv = st.kv;
            cnt.stats_checked += 1;
            if kv < smin[j] || kv > smax[j] {
                return Err(("stats", format!("between {} and {} keys were present while this ran: {}", smin[j], smax[j], recstr(recs[i]))));
            }
            if st.nodes > st.max_nodes {
                return Err(("stats", format!("not more than {} nodes existed at any time while this ran, yet it counts {}: {}", st.max_nodes, st.nodes, recstr(recs[i]))));
            }
        }
    }
    check_empty(recs, init, &keys, cnt)
}

fn check_empty(recs: &[&Rec], init: &BTreeMap<usize, usize>, keys: &BTreeSet<usize>, cnt: &mut Counts) -> Result<(), Bad> {
    if !recs.iter().any(|r| r.task != 0 && matches!(r.res, Res::Bool(_))) {
        return Ok(());
    }
    let mut touched: Vec<usize> = recs.iter().filter(|r| r.task != 0).filter_map(|r| op_key(&r.ox.op)).collect();
    touched.sort();
    touched.dedup();
    let untouched_present = init.keys().any(|k| touched.binary_search(k).is_err());
    let _ = keys;
    struct G {
        inv: u64,
        ret: u64,
        eff: Option<(usize, Option<usize>, Option<usize>)>,
        empty: bool,
        rec: usize,
    }
    let mut ops: Vec<G> = vec![];
    for (i, r) in recs.iter().enumerate() {
        if r.task == 0 {
            continue;
        }
        if let Res::Bool(b) = r.res {
            ops.push(G { inv: r.inv, ret: r.ret, eff: None, empty: b, rec: i });
        } else if let Some((k, a, b)) = key_effect(r) {
            let k = touched.binary_search(&k).unwrap();
            ops.push(G { inv: r.inv, ret: r.ret, eff: Some((k, a, b)), empty: false, rec: i });
        }
    }
    if ops.len() > 40 {
        cnt.undecided += 1;
        return Ok(());
    }
    ops.sort_by_key(|o| o.inv);
    let n = ops.len();
    let st0: Vec<Option<usize>> = touched.iter().map(|k| init.get(k).copied()).collect();
    let full = (1u64 << n) - 1;
    let mut seen: HashSet<(u64, Vec<Option<usize>>)> = HashSet::new();
    let mut stack = vec![(0u64, st0)];
    while let Some((mask, st)) = stack.pop() {
        if mask == full {
            cnt.empties_checked += 1;
            return Ok(());
        }
        if !seen.insert((mask, st.clone())) {
            continue;
        }
        if seen.len() > 100_000 {
            cnt.undecided += 1;
            return Ok(());
        }
        let minret = (0..n).filter(|i| mask >> i & 1 == 0).map(|i| ops[i].ret).min().unwrap();
        for i in (0..n).rev() {
            let o = &ops[i];
            if mask >> i & 1 == 1 || o.inv > minret {
                continue;
            }
            match o.eff {
                None => {
                    let e = !untouched_present && st.iter().all(|v| v.is_none());
                    if e == o.empty {
                        stack.push((mask | 1 << i, st.clone()));
                    }
                }
                Some((k, a, b)) => {
                    if st[k] == a {
                        let mut s = st.clone();
                        s[k] = b;
                        stack.push((mask | 1 << i, s));
                    }
                }
            }
        }
    }
    let mut s = format!("no sequential order explains the is_empty answers; initially {} keys present, of them untouched: {}\n", init.len(), untouched_present);
    for o in &ops {
        s.push_str(&format!("  {}\n", recstr(recs[o.rec])));
    }
    Err(("empty", s))
}

/// Whoever is given a value must also see everything its writer did before writing it.
pub fn check_publication(recs: &[&Rec], cnt: &mut Counts) -> Result<(), Bad> {
    let mut writers: HashMap<usize, Option<usize>> = HashMap::new();
    for (i, r) in recs.iter().enumerate() {
        let v = match (&r.ox.op, &r.res) {
            (Op::Insert(_, v), Res::Ins(o)) if *o != Some(*v) => Some(*v),
            (Op::Coi(..), Res::Ins(o)) => r.calls.last().and_then(|c| c.ret).filter(|v| *o != Some(*v)),
            (Op::Cip(..), Res::Cip(Some((o, Some(n))))) if o != n => Some(*n),
            (Op::Cas(_, _, Some(n)), Res::Cas(Ok(_))) => Some(*n),
            _ => None,
        };
        if let Some(v) = v {
            writers.entry(v).and_modify(|e| *e = None).or_insert(Some(i));
        }
    }
    let mut got = |r: &Rec, v: usize, vc: &Vc, what: &str| -> Result<(), Bad> {
        if let Some(Some(w)) = writers.get(&v) {
            let w = recs[*w];
            if w.task != r.task && w.task != 0 {
                cnt.hb_pairs += 1;
                if vc[w.task] < w.inv_clock {
                    return Err(("publish", format!(
                        "the {what} hands over value {v:x} without a happens-before edge from the operation that stored it (memory orderings too weak)\n  {}\n  {}",
                        recstr(w), recstr(r))));
                }
            }
        }
        Ok(())
    };
    for r in recs {
        if r.task == 0 {
            continue;
        }
        for c in &r.calls {
            if let Some(a) = c.arg {
                got(r, a, &c.vc, "callback")?;
            }
        }
        match &r.res {
            Res::Val(Some(v)) | Res::Ins(Some(v)) | Res::Cas(Err(Some(v))) => got(r, *v, &r.vc, "result")?,
            Res::Cip(Some((o, _))) => got(r, *o, &r.vc, "result")?,
            Res::Range(vs) => {
                for (_, v) in vs {
                    got(r, *v, &r.vc, "scan")?;
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// Exact check of one operation that ran alone, against the model map.
pub fn seq_check(r: &Rec, m: &mut BTreeMap<usize, usize>) -> Result<(), Bad> {
    check_calls(r)?;
    scan_form(r)?;
    if let Some((k, pre, post)) = key_effect(r) {
        let have = m.get(&k).copied();
        if have != pre {
            return Err(("lin", format!("key {k:x} holds {have:x?} in the reference map, alone on the tree: {}", recstr(r))));
        }
        match post {
            Some(v) => m.insert(k, v),
            None => m.remove(&k),
        };
        return Ok(());
    }
    match (&r.ox.op, &r.res) {
        (Op::Range(lo, hi, n), Res::Range(v)) => {
            let want: Vec<(usize, usize)> =
                if lo < hi { m.range(*lo..*hi).take(*n).map(|(a, b)| (*a, *b)).collect() } else { vec![] };
            if &want != v {
                let mut w = format!("{want:x?}");
                w.truncate(600);
                return Err(("scan", format!("scan differs from the reference map, alone on the tree: {}\n expected {w}", recstr(r))));
            }
        }
        (Op::IsEmpty, Res::Bool(b)) => {
            if *b != m.is_empty() {
                return Err(("empty", format!("{} keys are present: {}", m.len(), recstr(r))));
            }
        }
        (Op::Stats, Res::Stats(st)) => {
            if st.kv != m.len() {
                return Err(("stats", format!("{} keys are present: {}", m.len(), recstr(r))));
            }
            // every node but the root is an entry of another one, and so is every key
            if st.entries + 1 != st.nodes + m.len() {
                return Err(("stats", format!("{} keys and {} nodes, but {} entries: {}", m.len(), st.nodes, st.entries, recstr(r))));
            }
            if let Err(e) = stat_details(st) {
                return Err(("stats", format!("{e}: {}", recstr(r))));
            }
        }
        _ => {}
    }
    Ok(())
}
