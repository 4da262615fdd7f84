//! The inputs of the findings listed in known_findings.txt. The generators leave them out; each check
//! runs those of its property on their own.
use proto::*;

use crate::fs::{CloneMode, FClass, FsCfg};
use crate::gen;
use crate::kern::{Rule, Strat, Sys, Viol, What};
use crate::plan::*;

pub struct Known {
    pub prop: &'static str,
    pub name: &'static str,
    pub what: &'static str,
    pub plan: fn() -> Plan,
    /// Is this what the finding describes?
    pub expect: fn(&Viol) -> bool,
}

pub fn all() -> Vec<Known> {
    vec![
        Known {
            prop: "C11",
            name: "empty-value-batch-rename",
            what: "BatchWriter::rename_value of a zero-length value leaves it under its old key",
            plan: empty_rename,
            expect: |v| v.class == "history" && v.detail.contains("list [(\"a\", 0,") && v.detail.ends_with("state {\"b\": 0}"),
        },
        Known {
            prop: "C17",
            name: "stat-error-aborts",
            what: "possum_single_stat aborts the process when the read fails (it cannot report an error)",
            plan: c_stat,
            expect: |v| {
                v.class == "abort"
                    || v.class == "panic" && v.detail.contains("c_api/ext_fns/handle.rs") && v.detail.contains("Result::unwrap()")
            },
        },
    ]
}

fn base(prop: &str, ops: Vec<Op>, capi: bool) -> Plan {
    let h = HandleSpec { capi, ..gen::handle() };
    Plan {
        prop: prop.into(),
        profile: "known finding".into(),
        seed: 1,
        fs: FsCfg { block_size: 4096, clone: CloneMode::Yes, flock_mode: false, sqlite_close_race: false, weak_ids: 0 },
        tick_ns: 10_000,
        strat: Strat::Walk(0),
        max_steps: 100_000,
        dir_order: 1,
        prep: None,
        prep_kill: false,
        old_version: None,
        procs: vec![ProcPlan { handles: vec![h], clients: vec![ClientPlan { handle: 0, capi, audit: true, ops }] }],
        restarts: 0,
        rules: vec![],
        turns: false,
        heal: vec![],
        close_first: true,
        limit: None,
        limit0: None,
        racing_opens: false,
        check_space: false,
        holes: false,
        decisions: None,
    }
}

fn key(s: &str) -> K {
    K(s.as_bytes().to_vec())
}

fn empty_rename() -> Plan {
    base(
        "C11",
        vec![
            Op::Put { key: key("a"), vid: 1, len: 0, chunks: 1 },
            Op::Batch { items: vec![Item::RenameKey { from: key("a"), to: key("b") }], commit: true },
            Op::List { prefix: key("") },
        ],
        false,
    )
}

fn c_stat() -> Plan {
    let mut p = base("C17", vec![Op::Stat { key: key("a") }], true);
    p.procs[0].clients[0].audit = false;
    let put = Op::Put { key: key("a"), vid: 1, len: 10, chunks: 1 };
    p.prep = Some(ProcPlan {
        handles: vec![gen::handle()],
        clients: vec![ClientPlan { handle: 0, capi: false, audit: false, ops: vec![put] }],
    });
    p.rules = vec![Rule {
        what: What::Errno(libc::EIO),
        sys: Sys::Write,
        file: Some(FClass::Wal),
        proc: None,
        bg: Some(false),
        nth: 0,
        times: 1000,
    }];
    p
}
