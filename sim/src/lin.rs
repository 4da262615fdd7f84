//! Is the history of operations a linearization of the reference model: one ordered map from keys
//! to value ids? A WGL-style search: operations are placed one after another, each within its
//! interval; effects are applied to the model and observed results compared.
use std::collections::{BTreeMap, HashSet};

use proto::{Vid, K};

#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Missing,
    Vid(Vid),
    /// present, with this length
    Len(u64),
}

#[derive(Clone, Debug)]
pub enum Step {
    Put(K, Vid),
    /// a value looked up earlier gets this key, if it is still stored
    RenameVid(Vid, K),
    /// the zero-length value under the first key
    RenameEmpty(K, K),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Ok,
    NoSuchKey,
    Exists,
    /// the process died before the call returned
    Unknown,
}

#[derive(Clone, Debug)]
pub enum Act {
    Write(Vec<Step>),
    Read { keys: Vec<(K, Want)>, list: Option<(K, Vec<(K, u64)>)> },
    Delete(K, Out, Option<u64>),
    Rename(K, K, Out),
    MovePrefix(K, K, Out),
    DeletePrefix(K),
}

impl Act {
    /// Cannot change the model.
    fn pure(&self) -> bool {
        match self {
            Act::Read { .. } => true,
            Act::Delete(_, o, _) => *o == Out::NoSuchKey,
            Act::Rename(_, _, o) => matches!(o, Out::NoSuchKey | Out::Exists),
            Act::MovePrefix(_, _, o) => *o == Out::Exists,
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct LOp {
    pub inv: u64,
    /// u64::MAX: did not return
    pub ret: u64,
    /// an operation that did not return cannot take effect after its process died
    pub kill: Option<u64>,
    pub act: Act,
    pub text: String,
}

pub type State = BTreeMap<K, Vid>;

/// The possible states after the operation at this instant; None: it cannot have had this result.
pub fn apply(st: &State, act: &Act, lens: &BTreeMap<Vid, u64>) -> Option<State> {
    let len = |v: &Vid| lens.get(v).copied().unwrap_or(0);
    match act {
        Act::Write(steps) => {
            let mut s = st.clone();
            for step in steps {
                match step {
                    Step::Put(k, v) => {
                        s.insert(k.clone(), if len(v) == 0 { 0 } else { *v });
                    }
                    Step::RenameVid(v, to) => {
                        if *v == 0 {
                            continue;
                        }
                        let Some(k) = s.iter().find(|(_, x)| *x == v).map(|(k, _)| k.clone()) else {
                            continue;
                        };
                        s.remove(&k);
                        s.insert(to.clone(), *v);
                    }
                    Step::RenameEmpty(from, to) => {
                        if s.get(from) == Some(&0) {
                            s.remove(from);
                            s.insert(to.clone(), 0);
                        }
                    }
                }
            }
            Some(s)
        }
        Act::Read { keys, list } => {
            for (k, w) in keys {
                let ok = match (st.get(k), w) {
                    (None, Want::Missing) => true,
                    (Some(v), Want::Vid(x)) => v == x,
                    (Some(v), Want::Len(n)) => len(v) == *n,
                    _ => false,
                };
                if !ok {
                    return None;
                }
            }
            if let Some((p, items)) = list {
                let mut n = 0;
                for (k, v) in st.range(p.clone()..).take_while(|(k, _)| k.0.starts_with(&p.0)) {
                    match items.get(n) {
                        Some((ik, il)) if ik == k && (*il == len(v) || *il == u64::MAX) => n += 1,
                        _ => return None,
                    }
                }
                if n != items.len() {
                    return None;
                }
            }
            Some(st.clone())
        }
        Act::Delete(k, out, size) => match (st.get(k), out) {
            (None, Out::NoSuchKey) | (None, Out::Unknown) => Some(st.clone()),
            (Some(v), Out::Ok) | (Some(v), Out::Unknown) => {
                if size.is_some_and(|s| s != len(v)) {
                    return None;
                }
                let mut s = st.clone();
                s.remove(k);
                Some(s)
            }
            _ => None,
        },
        Act::Rename(from, to, out) => {
            let f = st.get(from);
            let t = st.contains_key(to);
            match out {
                Out::NoSuchKey => f.is_none().then(|| st.clone()),
                Out::Exists => (f.is_some() && t && from != to).then(|| st.clone()),
                Out::Ok | Out::Unknown => {
                    let Some(v) = f else {
                        return (*out == Out::Unknown).then(|| st.clone());
                    };
                    if from == to {
                        return Some(st.clone());
                    }
                    if t {
                        return (*out == Out::Unknown).then(|| st.clone());
                    }
                    let v = *v;
                    let mut s = st.clone();
                    s.remove(from);
                    s.insert(to.clone(), v);
                    Some(s)
                }
            }
        }
        Act::MovePrefix(from, to, out) => {
            let moved: Vec<(K, Vid)> = st
                .range(from.clone()..)
                .take_while(|(k, _)| k.0.starts_with(&from.0))
                .map(|(k, v)| (k.clone(), *v))
                .collect();
            let dest: Vec<K> = moved
                .iter()
                .map(|(k, _)| {
                    let mut n = to.0.clone();
                    n.extend_from_slice(&k.0[from.0.len()..]);
                    K(n)
                })
                .collect();
            let mut s = st.clone();
            for (k, _) in &moved {
                s.remove(k);
            }
            // A key moved onto one that moves away itself may be refused.
            let may_refuse = from != to && dest.iter().any(|d| st.contains_key(d));
            let must_refuse = dest.iter().any(|d| s.contains_key(d));
            match out {
                Out::Exists => may_refuse.then(|| st.clone()),
                _ if must_refuse => (*out == Out::Unknown).then(|| st.clone()),
                _ => {
                    for ((_, v), d) in moved.iter().zip(dest) {
                        s.insert(d, *v);
                    }
                    Some(s)
                }
            }
        }
        Act::DeletePrefix(p) => {
            let mut s = st.clone();
            s.retain(|k, _| !k.0.starts_with(&p.0));
            Some(s)
        }
    }
}

pub enum Verdict {
    Ok { end: State, nodes: u64 },
    Bad { why: String, nodes: u64 },
    Budget,
}

struct Search<'a> {
    ops: &'a [LOp],
    lens: &'a BTreeMap<Vid, u64>,
    seen: HashSet<(Vec<u64>, u64, Vec<(K, Vid)>)>,
    nodes: u64,
    budget: u64,
    best: usize,
    why: String,
}

/// `bits`: placed operations. `hi`: the latest invocation among the placed ones.
fn go(s: &mut Search, mut bits: Vec<u64>, mut hi: u64, st: State) -> Option<Option<State>> {
    let has = |b: &[u64], i: usize| b[i / 64] >> (i % 64) & 1 == 1;
    // Results that already fit and change nothing are placed right away.
    loop {
        let bound = min_ret(s, &bits);
        let mut any = false;
        for i in 0..s.ops.len() {
            let o = &s.ops[i];
            if has(&bits, i) || o.inv > bound || !o.act.pure() || o.ret == u64::MAX {
                continue;
            }
            // Placing it here would rule out an operation of a process that died before it began.
            let (n, at) = (s.ops.len(), hi);
            if (0..n).any(|j| !has(&bits, j) && s.ops[j].kill.is_some_and(|k| at <= k && k < o.inv)) {
                continue;
            }
            if apply(&st, &o.act, s.lens).is_some() {
                bits[i / 64] |= 1 << (i % 64);
                hi = hi.max(o.inv);
                any = true;
            }
        }
        if !any {
            break;
        }
    }
    s.nodes += 1;
    if s.nodes > s.budget {
        return None;
    }
    let placed: usize = bits.iter().map(|b| b.count_ones() as usize).sum();
    let bound = min_ret(s, &bits);
    if bound == u64::MAX {
        // Nothing that returned is left.
        return Some(Some(st));
    }
    if placed >= s.best {
        s.best = placed;
        let i = (0..s.ops.len()).filter(|i| !has(&bits, *i)).min_by_key(|i| s.ops[*i].ret).unwrap();
        s.why = format!(
            "after placing {} of {} operations nothing explains [{}..{}] {}; state {:?}",
            placed,
            s.ops.len(),
            s.ops[i].inv,
            s.ops[i].ret,
            s.ops[i].text,
            st
        );
    }
    let key = (bits.clone(), hi, st.iter().map(|(k, v)| (k.clone(), *v)).collect::<Vec<_>>());
    if !s.seen.insert(key) {
        return Some(None);
    }
    let mut order: Vec<usize> = (0..s.ops.len())
        .filter(|i| !has(&bits, *i) && s.ops[*i].inv <= bound)
        .collect();
    order.sort_by_key(|i| s.ops[*i].ret);
    for i in order {
        let o = &s.ops[i];
        if o.kill.is_some_and(|k| hi > k) {
            continue;
        }
        if let Some(n) = apply(&st, &o.act, s.lens) {
            if o.ret == u64::MAX && n == st {
                continue;
            }
            let mut b = bits.clone();
            b[i / 64] |= 1 << (i % 64);
            let hi2 = hi.max(o.inv);
            match go(s, b, hi2, n) {
                None => return None,
                Some(Some(e)) => return Some(Some(e)),
                Some(None) => {}
            }
        }
    }
    Some(None)
}

fn min_ret(s: &Search, bits: &[u64]) -> u64 {
    (0..s.ops.len())
        .filter(|i| bits[i / 64] >> (i % 64) & 1 == 0)
        .map(|i| s.ops[i].ret)
        .min()
        .unwrap_or(u64::MAX)
}

pub fn check(ops: &[LOp], init: State, lens: &BTreeMap<Vid, u64>, budget: u64) -> Verdict {
    let mut s = Search {
        ops,
        lens,
        seen: Default::default(),
        nodes: 0,
        budget,
        best: 0,
        why: String::new(),
    };
    let r = go(&mut s, vec![0; ops.len() / 64 + 1], 0, init);
    match r {
        None => Verdict::Budget,
        Some(Some(end)) => Verdict::Ok { end, nodes: s.nodes },
        Some(None) => Verdict::Bad { why: s.why, nodes: s.nodes },
    }
}
