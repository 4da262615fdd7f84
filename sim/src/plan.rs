//! What one simulated run does. A plan, its seed and (for a replay) its schedule decisions determine
//! the execution completely.
use proto::{HandleSpec, Item, Op, Vid, K};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

use crate::fs::FsCfg;
use crate::kern::{Rule, Strat};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ClientPlan {
    pub handle: u8,
    pub capi: bool,
    /// read the manifest with SQL after every operation (turns only)
    pub audit: bool,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ProcPlan {
    pub handles: Vec<HandleSpec>,
    pub clients: Vec<ClientPlan>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub profile: String,
    pub seed: u64,
    pub fs: FsCfg,
    pub tick_ns: u64,
    pub strat: Strat,
    pub max_steps: u64,
    pub dir_order: u64,
    /// One process fills the store before the others start. None: the store does not exist yet.
    pub prep: Option<ProcPlan>,
    /// the preparing process is killed rather than closing its handles
    pub prep_kill: bool,
    /// after the preparation, the manifest is made to look like this older version
    pub old_version: Option<u32>,
    pub procs: Vec<ProcPlan>,
    pub restarts: u32,
    pub rules: Vec<Rule>,
    /// operations do not overlap
    pub turns: bool,
    /// several processes create or upgrade the directory at once, which may fail
    #[serde(default)]
    pub racing_opens: bool,
    /// After the main part, with no more faults: operations by clients of these processes.
    pub heal: Vec<(usize, ClientPlan)>,
    /// all handles are closed before the final waiting time (else after it)
    pub close_first: bool,
    /// no committed state may hold more
    pub limit: Option<u64>,
    /// the limit that handles are opened with, if it is changed later
    #[serde(default)]
    pub limit0: Option<u64>,
    pub check_space: bool,
    /// The tool lists and punches the holes that are missing at the end.
    #[serde(default)]
    pub holes: bool,
    /// the schedule, as deviations from the default
    pub decisions: Option<Vec<(u64, u32)>>,
}

impl Plan {
    pub fn all_ops(&self) -> impl Iterator<Item = &Op> {
        self.prep
            .iter()
            .chain(self.procs.iter())
            .flat_map(|p| p.clients.iter())
            .chain(self.heal.iter().map(|(_, c)| c))
            .flat_map(|c| c.ops.iter())
    }

    /// Length of every value of the plan.
    pub fn lens(&self) -> BTreeMap<Vid, u64> {
        let mut m = BTreeMap::new();
        for op in self.all_ops() {
            for (_, v, l) in puts(op) {
                m.insert(v, l);
            }
        }
        m
    }

    pub fn sources(&self) -> Vec<(Vid, u32)> {
        let mut v = vec![];
        for op in self.all_ops() {
            match op {
                Op::CloneFile { vid, len, .. } => v.push((*vid, *len)),
                Op::Batch { items, .. } => {
                    for i in items {
                        if let Item::Clone { vid, len, .. } = i {
                            v.push((*vid, *len));
                        }
                    }
                }
                _ => {}
            }
        }
        v
    }

    /// What the tool imports, as directories with one file that has the key's name.
    pub fn cli_sources(&self) -> Vec<(Vid, &K, u32)> {
        self.all_ops()
            .filter_map(|op| match op {
                Op::CliPut { key, vid, len } => Some((*vid, key, *len)),
                _ => None,
            })
            .collect()
    }

    pub fn n_ops(&self) -> usize {
        self.all_ops().count()
    }
}

/// The values an item stages, in the order of staging.
pub fn item_puts(i: &Item) -> Vec<(K, Vid, u64)> {
    match i {
        Item::Put { key, vid, len, .. } | Item::Clone { key, vid, len, .. } => {
            vec![(key.clone(), *vid, *len as u64)]
        }
        Item::Fail { key, vid, len, retry: true, .. } => vec![(key.clone(), *vid, *len as u64)],
        Item::Multi { vals, .. } => {
            vals.iter().rev().map(|(k, v, l)| (k.clone(), *v, *l as u64)).collect()
        }
        _ => vec![],
    }
}

pub fn puts(op: &Op) -> Vec<(K, Vid, u64)> {
    match op {
        Op::Put { key, vid, len, .. } | Op::CloneFile { key, vid, len, .. } | Op::CliPut { key, vid, len } => {
            vec![(key.clone(), *vid, *len as u64)]
        }
        Op::Huge { key, len } => vec![(key.clone(), proto::HUGE_VID, *len)],
        Op::Batch { items, .. } => items.iter().flat_map(item_puts).collect(),
        _ => vec![],
    }
}
