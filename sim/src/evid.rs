//! Worker statistics and the evidence file.
use crate::Totals;
use std::collections::BTreeMap;
use std::fmt::Write;

pub fn write_worker(path: &str, t: &Totals, samples: &[String], secs: f64) {
    let mut s = String::new();
    let mut put = |k: &str, v: u64| writeln!(s, "{k} {v}").unwrap();
    put("runs", t.runs);
    put("programs", t.programs);
    put("sequential_programs", t.seq_programs);
    put("events", t.events);
    put("operations", t.ops);
    put("callback_panics_injected", t.panics);
    put("runs_with_conflict", t.racy);
    put("late_drops", t.late_drops);
    put("keys_linearized", t.cnt.keys_checked);
    put("histories_undecided", t.cnt.undecided);
    put("is_empty_histories_checked", t.cnt.empties_checked);
    put("concurrent_stats_checked", t.cnt.stats_checked);
    put("cross_thread_value_handovers_checked", t.cnt.hb_pairs);
    put("distinct_interleavings", t.inter.len() as u64);
    put("distinct_nontrivial", t.inter_racy.len() as u64);
    put("millis", (secs * 1000.0) as u64);
    for (i, n) in rt::PROBE_NAMES.iter().enumerate() {
        put(&format!("probe_{n}"), rt::rt().probes[i]);
    }
    for (i, n) in t.facade.iter().enumerate() {
        put(&format!("facade_{i}"), *n);
    }
    for (i, n) in ["preemption_plan", "random_walk", "pct", "sequential"].iter().enumerate() {
        put(&format!("strategy_{n}"), t.strat[i]);
    }
    for x in samples {
        writeln!(s, "sample {}", x.replace('\n', "\\n")).unwrap();
    }
    // whole or not at all: the worker may be killed while it writes
    let tmp = format!("{path}.tmp");
    if std::fs::write(&tmp, s).is_ok() {
        let _ = std::fs::rename(&tmp, path);
    }
}

pub type Sum = BTreeMap<String, u64>;

pub fn merge(files: &[String]) -> (Sum, Vec<String>) {
    let mut m = Sum::new();
    let mut samples = vec![];
    for f in files {
        if let Ok(t) = std::fs::read_to_string(f) {
            for l in t.lines() {
                if let Some(x) = l.strip_prefix("sample ") {
                    samples.push(x.replace("\\n", "\n"));
                } else if let Some((k, v)) = l.split_once(' ') {
                    *m.entry(k.to_string()).or_default() += v.parse::<u64>().unwrap_or(0);
                }
            }
        }
    }
    (m, samples)
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Ev<'a> {
    pub id: &'a str,
    pub tier: &'a str,
    pub seed: u64,
    pub sum: &'a Sum,
    pub samples: &'a [String],
    pub wall: f64,
    pub violations: u64,
    pub builds: &'a str,
    pub workers: usize,
}

pub fn evidence_json(e: &Ev) -> String {
    let g = |k: &str| e.sum.get(k).copied().unwrap_or(0);
    let secs = (g("millis") as f64 / 1000.0 / e.workers.max(1) as f64).max(0.001);
    let mut s = String::new();
    let f = &mut s;
    writeln!(f, "{{").unwrap();
    writeln!(f, " \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",", js(e.id), js(e.tier), e.seed).unwrap();
    writeln!(f, " \"coverage\": {{").unwrap();
    writeln!(f, "  \"evaluations\": {},", g("runs")).unwrap();
    writeln!(f, "  \"distinct_nontrivial\": {},", g("distinct_nontrivial")).unwrap();
    writeln!(f, "  \"rule\": {},", js("One evaluation is one simulated run: a seeded program (sequential prefix, 2-4 threads of operations with the faults bound to them, sequential suffix, destruction) under one seeded schedule. Distinct: program text and the sequence of context switches (thread, event number, target) hash differently. Non-trivial: threads really collided in it (a lock upgrade was lost, a version changed under a reader, or a node was read while an unfinished operation of another thread had written it); a purely sequential history counts once by its program.")).unwrap();
    writeln!(f, "  \"samples\": [{}],", e.samples.iter().take(3).map(|x| js(x)).collect::<Vec<_>>().join(", ")).unwrap();
    writeln!(f, "  \"programs\": {}, \"sequential_history_programs\": {},", g("programs"), g("sequential_programs")).unwrap();
    writeln!(f, "  \"simulated_runs_per_hour\": {:.0}, \"program_seeds_per_hour\": {:.0},", g("runs") as f64 / secs * 3600.0, g("programs") as f64 / secs * 3600.0).unwrap();
    writeln!(f, "  \"simulated_time\": {{\"unit\": \"memory-access events of the code under test (it reads no clock)\", \"events\": {}, \"operations\": {}}},", g("events"), g("operations")).unwrap();
    writeln!(f, "  \"distinct_interleavings\": {}, \"runs_with_conflict\": {},", g("distinct_interleavings"), g("runs_with_conflict")).unwrap();
    writeln!(f, "  \"faults_injected\": {{\"preemption_inside_an_operation\": {}, \"allocation_failure\": {}, \"callback_panic\": {}, \"reader_stalled_until_all_others_finished\": {}, \"older_value_of_a_version_seen\": {}, \"context_switches\": {}}},",
        g("probe_preemptions_inside_an_operation"), g("probe_allocation_failures_injected"), g("callback_panics_injected"), g("probe_readers_stalled_until_all_others_finished"), g("probe_version_loads_answered_with_an_older_value"), g("probe_context_switches")).unwrap();
    let m = |pre: &str| {
        let above = ["context_switches", "preemptions_inside_an_operation", "allocation_failures_injected", "readers_stalled_until_all_others_finished", "version_loads_answered_with_an_older_value", "memory_access_events"];
        e.sum.iter().filter(|(k, _)| k.starts_with(pre) && !above.contains(&&k[pre.len()..])).map(|(k, v)| {
            let n = if pre == "facade_" { subject::FACADE_NAMES[k[7..].parse::<usize>().unwrap()].to_string() } else { k[pre.len()..].to_string() };
            format!("{}: {v}", js(&n))
        }).collect::<Vec<_>>().join(", ")
    };
    writeln!(f, "  \"reached\": {{{}}},", m("probe_")).unwrap(); // faults and time are reported above
    writeln!(f, "  \"front_ends\": {{{}}},", m("facade_")).unwrap();
    writeln!(f, "  \"strategies\": {{{}}},", m("strategy_")).unwrap();
    writeln!(f, "  \"oracle\": {{\"per_key_linearizations\": {}, \"is_empty_global_linearizations\": {}, \"concurrent_stats_checked\": {}, \"cross_thread_value_handovers_checked\": {}, \"undecided_too_large\": {}}},",
        g("keys_linearized"), g("is_empty_histories_checked"), g("concurrent_stats_checked"), g("cross_thread_value_handovers_checked"), g("histories_undecided")).unwrap();
    writeln!(f, "  \"real_components\": [\"congee (all of src/, compiled from /repo's working tree)\", \"crossbeam-epoch (its default collector)\", \"std\", \"OS threads, run one at a time\"],").unwrap();
    writeln!(f, "  \"stubbed_components\": [\"thread scheduler (baton passing at every memory access of the tree)\", \"node allocator (arena with poisoning, red zones, no reuse, injected failures)\"],").unwrap();
    writeln!(f, "  \"builds\": {}, \"workers\": {}, \"exhaustive\": false", js(e.builds), e.workers).unwrap();
    writeln!(f, " }},").unwrap();
    writeln!(f, " \"assumptions\": [{}, {}, {}],",
        js("memory accesses take effect in program order (sequential consistency, as compiled by the instrumented build); of weaker hardware orders, C11 checks happens-before over the declared orderings and C16 answers repeated loads of atomic words with permitted older values"),
        js("crossbeam-epoch is correct; its own steps are atomic in the simulation"),
        js("search, not proof: schedules and programs outside the sampled ones are not covered")).unwrap();
    writeln!(f, " \"wall_s\": {:.1}, \"violations\": {}", e.wall, e.violations).unwrap();
    writeln!(f, "}}").unwrap();
    s
}
