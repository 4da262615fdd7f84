//! Judges a finished run from its recorded history and its final state.
use std::collections::{BTreeMap, BTreeSet};

use proto::*;

use crate::fs::*;
use crate::kern::*;
use crate::lin::{self, Act, LOp, Out, Step, Verdict, Want};
use crate::plan::*;
use crate::run::{RunResult, Runner};

/// Every key an operation names or may create.
pub fn keys_of(op: &Op, out: &mut Vec<K>) {
    match op {
        Op::Put { key, .. }
        | Op::ReadSingle { key, .. }
        | Op::ReadPart { key, .. }
        | Op::Delete { key }
        | Op::Stat { key }
        | Op::CliPut { key, .. }
        | Op::CliRead { key }
        | Op::CloneFile { key, .. } => out.push(key.clone()),
        Op::Batch { items, .. } => {
            for i in items {
                for (k, _, _) in item_puts(i) {
                    out.push(k);
                }
                match i {
                    Item::RenameKey { from, to } => {
                        out.push(from.clone());
                        out.push(to.clone());
                    }
                    Item::RenameSlot { to, .. } => out.push(to.clone()),
                    _ => {}
                }
            }
        }
        Op::Read { keys, .. } => out.extend(keys.iter().cloned()),
        Op::Rename { from, to } => {
            out.push(from.clone());
            out.push(to.clone());
        }
        _ => {}
    }
}

/// Milliseconds that the operation spends waiting by its own choice.
fn own_ms(op: &Op) -> u64 {
    match op {
        Op::Sleep { ms } => *ms as u64,
        Op::Read { pause_ms, .. } => *pause_ms as u64,
        Op::Batch { items, .. } => items
            .iter()
            .map(|i| match i {
                Item::Pause { ms } => *ms as u64,
                Item::Put { len, chunks, pause_ms, .. } => {
                    let chunk = (*len / (*chunks).max(1)).max(1);
                    (*len / chunk + 2) as u64 * *pause_ms as u64
                }
                _ => 0,
            })
            .sum(),
        _ => 0,
    }
}

struct J<'a, 'b> {
    r: &'a Runner<'b>,
    s: &'a Sim,
    lens: BTreeMap<Vid, u64>,
    viols: Vec<Viol>,
}

impl J<'_, '_> {
    fn v(&mut self, class: &str, detail: String) {
        if self.viols.iter().filter(|v| v.class == class).count() < 3 {
            self.viols.push(Viol { class: class.into(), detail });
        }
    }

    fn at(&self, h: &Hist) -> String {
        format!("p{} c{} #{} {:?}", h.proc, h.client, h.idx, h.op)
    }
}

pub fn judge(r: &Runner, res: &mut RunResult) {
    let s: &Sim = sim();
    let mut j = J { r, s, lens: r.plan.lens(), viols: vec![] };
    if let Some(v) = &s.viol {
        j.viols.push(v.clone());
    }
    for p in &s.panics {
        j.v("panic", p.clone());
    }
    errors(&mut j);
    corrupt(&mut j);
    slots(&mut j);
    sources(&mut j);
    durations(&mut j);
    regions(&mut j);
    let plan = r.plan;
    if plan.limit.is_none() {
        linear(&mut j, res);
    } else {
        limits(&mut j);
    }
    if plan.turns {
        turns(&mut j, res);
    }
    if s.viol.is_none() {
        fsck(&mut j);
        space(&mut j);
        holes(&mut j);
        leftovers(&mut j);
        upgrade(&mut j);
    }
    res.overlaps = overlaps(s);
    res.viols = j.viols;
}

fn overlaps(s: &Sim) -> u64 {
    let mut n = 0;
    for (i, a) in s.hist.iter().enumerate() {
        for b in &s.hist[i + 1..] {
            let (ar, br) = (a.ret.unwrap_or(u64::MAX), b.ret.unwrap_or(u64::MAX));
            if a.client != b.client && a.phase == b.phase && a.inv < br && b.inv < ar {
                n += 1;
            }
        }
    }
    n
}

/// Long enough without progress that SQLite's busy handler (5 s) may give up.
fn may_be_busy(j: &J) -> bool {
    j.s.stall_total >= 3_000_000 || j.s.faults_total > 0
}

fn is_capi(j: &J, h: &Hist) -> bool {
    // Whether any client of this plan uses the C interface is enough here: only the error's kind
    // is blurred.
    let p = j.r.plan;
    h.r.as_ref().is_some_and(|r| r.err.as_ref().is_some_and(|e| e.1.starts_with("C code")))
        && p.prep
            .iter()
            .chain(p.procs.iter())
            .flat_map(|p| p.clients.iter())
            .chain(p.heal.iter().map(|h| &h.1))
            .any(|c| c.capi)
}

fn allowed_error(j: &J, h: Option<&Hist>, k: EK, faults: u64) -> bool {
    // Whoever initializes the manifest keeps others out, also for longer than they wait.
    if j.r.plan.racing_opens
        && k != EK::Panic
        && (k == EK::Busy
            || match h {
                Some(h) => {
                    matches!(h.op, Op::EnsureOpen | Op::Reopen)
                        || h.r.as_ref().is_some_and(|r| {
                            r.err.as_ref().is_some_and(|e| e.1.contains("locking protocol"))
                        })
                }
                None => true,
            })
    {
        return true;
    }
    // Files that come and go
    let tool = h.is_some_and(|h| matches!(h.op, Op::CliHoles { .. } | Op::CliPunch) && h.phase < 3);
    if tool
        && k == EK::Io
        && h.and_then(|h| h.r.as_ref()?.err.as_ref()).is_some_and(|e| e.1.contains("No such file"))
    {
        return true;
    }
    match k {
        EK::Skip => true,
        EK::Panic => false,
        EK::NoSuchKey => h.is_some_and(|h| matches!(h.op, Op::Delete { .. } | Op::Rename { .. })),
        EK::Constraint => {
            h.is_some_and(|h| matches!(h.op, Op::Rename { .. } | Op::MovePrefix { .. }))
        }
        EK::Busy => may_be_busy(j),
        EK::Sqlite | EK::Other if h.is_some_and(|h| is_capi(j, h)) => {
            faults > 0
                || may_be_busy(j)
                || h.is_some_and(|h| matches!(h.op, Op::Rename { .. } | Op::MovePrefix { .. }))
        }
        EK::Io | EK::Sqlite | EK::Other => faults > 0 || missing_source(h),
    }
}

/// SQLite opens a database read-only for good when opening it for writing fails once.
fn read_only(j: &J, text: &str) -> bool {
    // Its readers can't keep others from cleaning up snapshots being taken; they would fail anyway.
    j.s.db_open_faults > 0 && (text.contains("readonly database") || text.contains("cloning file: No such file") || text.starts_with("C code") || text == "single_write_buf failed")
}

/// Ten random names in a row were taken.
fn out_of_names(j: &J, text: &str) -> bool {
    j.r.plan.fs.weak_ids > 0 && text.contains("gave up trying to create exclusive file")
}

fn missing_source(h: Option<&Hist>) -> bool {
    h.is_some_and(|h| matches!(h.op, Op::CloneFile { missing: true, .. }))
}

fn errors(j: &mut J) {
    let s = j.s;
    for h in &s.hist {
        let Some(r) = &h.r else { continue };
        if let Some((k, t)) = &r.err {
            if !allowed_error(j, Some(h), *k, h.faults_any) && !read_only(j, t) && !out_of_names(j, t) {
                let d = format!("{} failed: {:?} {}", j.at(h), k, t);
                j.v(if *k == EK::Panic { "panic" } else { "error" }, d);
            }
        } else if missing_source(Some(h)) {
            let d = format!("{} succeeded with an unreadable source", j.at(h));
            j.v("error", d);
        }
        for (i, k, t) in &r.part_errs {
            if !allowed_error(j, None, *k, h.faults_any) && !read_only(j, t) && !out_of_names(j, t) {
                let d = format!("{} item {} failed: {:?} {}", j.at(h), i, k, t);
                j.v(if *k == EK::Panic { "panic" } else { "error" }, d);
            }
        }
        if r.err.is_none() {
            if let (Op::Put { .. } | Op::Batch { .. } | Op::CloneFile { .. } | Op::Huge { .. } | Op::CliHoles { .. } | Op::CliPunch, Some(t)) = (&h.op, &r.text) {
                let d = format!("{}: {}", j.at(h), t);
                j.v("result", d);
            }
            if let (Op::Put { len, .. }, Some(n)) = (&h.op, r.n) {
                if n != *len as u64 {
                    let d = format!("{} reported {} bytes", j.at(h), n);
                    j.v("result", d);
                }
            }
            if let (Op::Batch { commit: true, .. }, Some(n)) = (&h.op, r.n) {
                let want: usize = r.staged.len();
                if n as usize != want {
                    let d = format!("{} reported {} writes of {}", j.at(h), n, want);
                    j.v("result", d);
                }
            }
        }
    }
    for (p, r) in &s.open_rets {
        if let Some((k, t)) = &r.err {
            if !allowed_error(j, None, *k, s.faults_total) {
                let d = format!("opening a handle in process {} failed: {:?} {}", p, k, t);
                j.v(if *k == EK::Panic { "panic" } else { "error" }, d);
            }
        }
    }
}

fn corrupt(j: &mut J) {
    for h in &j.s.hist {
        let Some(r) = &h.r else { continue };
        for (k, o) in &r.reads {
            match o {
                Some(Obs::Corrupt { desc }) => {
                    let d = format!("{} key {:?}: {}", j.at(h), k, desc);
                    j.v("corrupt", d);
                }
                Some(Obs::Val { vid, len, .. }) if j.lens.get(vid) != Some(len) => {
                    let d = format!(
                        "{} key {:?}: value {} with {} bytes, written {:?}",
                        j.at(h),
                        k,
                        vid,
                        len,
                        j.lens.get(vid)
                    );
                    j.v("corrupt", d);
                }
                _ => {}
            }
        }
        if let (Some(l), Op::List { prefix } | Op::CliList { prefix }) = (&r.list, &h.op) {
            list_form(j, h, l, prefix);
        }
        if let (Some(l), Op::Read { list: Some(prefix), .. }) = (&r.list, &h.op) {
            list_form(j, h, l, prefix);
        }
    }
}

fn list_form(j: &mut J, h: &Hist, l: &[(K, u64, i64)], prefix: &K) {
    let mut seen = BTreeSet::new();
    for (k, _, _) in l {
        if !k.0.starts_with(&prefix.0) {
            let d = format!("{} lists {:?}", j.at(h), k);
            j.v("list", d);
        }
        if !seen.insert(k.clone()) {
            let d = format!("{} lists {:?} twice", j.at(h), k);
            j.v("list", d);
        }
    }
}

/// What a held snapshot returns never changes.
fn slots(j: &mut J) {
    let mut kept: BTreeMap<(usize, u32, u8), Vec<(K, Obs)>> = BTreeMap::new();
    for h in &j.s.hist {
        let Some(r) = &h.r else { continue };
        match &h.op {
            Op::Read { keep: Some(slot), begin: true, .. } if r.err.is_none() => {
                let v: Vec<(K, Obs)> = r
                    .reads
                    .iter()
                    .filter_map(|(k, o)| o.clone().map(|o| (k.clone(), o)))
                    .filter(|(_, o)| *o != Obs::Missing)
                    .collect();
                kept.insert((h.proc, h.client, *slot), v);
            }
            Op::SnapDrop { slot } => {
                kept.remove(&(h.proc, h.client, *slot));
            }
            Op::SnapRead { slot, .. } if r.err.is_none() => {
                let Some(want) = kept.get(&(h.proc, h.client, *slot)) else { continue };
                for (i, (k, o)) in r.reads.iter().enumerate() {
                    let Some(o) = o else { continue };
                    if matches!(o, Obs::Corrupt { .. }) {
                        continue;
                    }
                    if want.get(i).map(|w| (&w.0, &w.1)) != Some((k, o)) {
                        let d = format!(
                            "{}: snapshot gave {:?} for {:?}, at first {:?}",
                            j.at(h),
                            o,
                            k,
                            want.get(i)
                        );
                        j.v("snapshot", d);
                    }
                }
            }
            _ => {}
        }
    }
}

fn sources(j: &mut J) {
    for (vid, len) in j.r.plan.sources() {
        let p = format!("/simfs/src/{}", vid);
        let ok = match j.s.fs.lookup(p.as_bytes()) {
            Ok(ino) => m_read_all(j.s.fs.mem(ino).unwrap()) == content(vid, len as usize),
            Err(_) => false,
        };
        if !ok {
            j.v("source", format!("source file {} changed", vid));
        }
    }
}

fn durations(j: &mut J) {
    let all_pauses: u64 = j.r.plan.all_ops().map(own_ms).sum();
    for h in &j.s.hist {
        let Some(_) = h.ret else { continue };
        let mut allow = 8_000 + own_ms(&h.op) + j.s.stall_total / 1000;
        if j.r.plan.fs.flock_mode || matches!(h.op, Op::CloseWait) || j.s.faults_total > 0 {
            allow += all_pauses + 20_000;
        }
        let took = (h.ret_now - h.inv_now) / 1_000_000;
        if took > allow {
            let d = format!("{} took {} ms, expected at most {}", j.at(h), took, allow);
            j.v("slow", d);
        }
    }
}

// --- linearizability

/// The walks over the regions of sparse files.
fn regions(j: &mut J) {
    let s = j.s;
    for h in &s.hist {
        let (Op::Regions { file, .. }, Some(r)) = (&h.op, &h.r) else { continue };
        let mut at = 0;
        let mut walk: Vec<(bool, u64, u64)> = vec![];
        let mut bad = None;
        for (t, start, end) in r.list.iter().flatten() {
            if t.0 == b"end" {
                if let Some(n) = file {
                    if let Some(d) = walked(s, h, *n, &walk) {
                        bad = Some(d);
                    }
                }
                at = 0;
                walk.clear();
                continue;
            }
            let end = *end as u64;
            if *start != at || end <= *start {
                bad = Some(format!("a region from {} to {} follows the end of the last one at {}", start, end, at));
            }
            at = end;
            walk.push((t.0 == b"data", *start, end));
        }
        if let Some(d) = bad {
            let d = format!("{}: {} in {:?}; the file had {:?}", j.at(h), d, r.list.as_ref().unwrap(), h.layout);
            j.v("regions", d);
        }
    }
}

/// What is wrong with this complete walk over a sparse file.
fn walked(s: &Sim, h: &Hist, file: u8, walk: &[(bool, u64, u64)]) -> Option<String> {
    let [Some(a), Some(b)] = &h.layout[..] else { return None };
    let end = walk.last().map_or(0, |w| w.2);
    let touched: Vec<&Hist> = s
        .hist
        .iter()
        .filter(|e| matches!(&e.op, Op::Sparse { file: f, .. } if *f == file))
        .filter(|e| e.inv < h.ret.unwrap_or(u64::MAX) && h.inv < e.ret.unwrap_or(e.kill_seq.max(e.inv)))
        .collect();
    if touched.is_empty() {
        let mut want = vec![];
        let mut at = 0;
        for (d, e) in &a.1 {
            if *d > at {
                want.push((false, at, *d));
            }
            want.push((true, *d, (*e).min(a.0)));
            at = *e;
        }
        if at < a.0 {
            want.push((false, at, a.0));
        }
        return (walk != want).then(|| format!("not {:?}", want));
    }
    // Growing looks at the length first, so it may also cut off what is written meanwhile.
    let cut = touched
        .iter()
        .filter_map(|e| if let Op::Sparse { edits, .. } = &e.op { Some(edits) } else { None })
        .flatten()
        .filter_map(|e| if let Edit::Grow { len } = e { Some(*len) } else { None })
        .min()
        .unwrap_or(u64::MAX);
    if end < a.0.min(cut) || end > b.0 && cut == u64::MAX {
        return Some(format!("the file is not covered to its end ({} to {})", a.0.min(cut), b.0));
    }
    let is_data = |l: &(u64, Vec<(u64, u64)>), at: u64| l.1.iter().any(|(d, e)| *d <= at && at < *e);
    let free = |at: u64| {
        touched.iter().any(|e| {
            let Op::Sparse { edits, .. } = &e.op else { return false };
            edits.iter().any(|e| match e {
                Edit::Write { off, len } | Edit::Punch { off, len } => off / 4096 <= at / 4096 && at < off + len,
                Edit::Grow { .. } => false,
            })
        })
    };
    for (data, start, end) in walk {
        let mut points = vec![*start];
        points.extend(a.1.iter().chain(&b.1).flat_map(|(d, e)| [*d, *e]));
        for e in &touched {
            if let Op::Sparse { edits, .. } = &e.op {
                for e in edits {
                    if let Edit::Write { off, len } | Edit::Punch { off, len } = e {
                        points.extend([off & !4095, off + len, (off + len + 4095) & !4095]);
                    }
                }
            }
        }
        for p in points.into_iter().filter(|p| (*start..*end).contains(p) && *p < cut) {
            if *data != is_data(a, p) && *data != is_data(b, p) && !free(p) {
                return Some(format!("{} at {}", if *data { "no data" } else { "no hole" }, p));
            }
        }
    }
    None
}

fn want(o: &Obs) -> Option<Want> {
    Some(match o {
        Obs::Missing => Want::Missing,
        Obs::Val { vid, .. } => Want::Vid(*vid),
        Obs::Empty { .. } => Want::Vid(0),
        _ => return None,
    })
}

/// What a part of a value says about the key's value.
fn want_part(j: &J, o: &Obs) -> Option<Result<Want, String>> {
    let Obs::Part { vid, off, want, got, .. } = o else { return None };
    match vid {
        Some(v) => {
            let Some(len) = j.lens.get(v) else { return Some(Err(format!("unknown value {}", v))) };
            if *got > len.saturating_sub(*off).min(*want) || (*got == 0) {
                return Some(Err(format!("{:?} of a value of {} bytes", o, len)));
            }
            // One pread may return less only at the end or under faults.
            if *got != len.saturating_sub(*off).min(*want) && j.s.faults_total == 0 {
                return Some(Err(format!("{:?} of a value of {} bytes", o, len)));
            }
            Some(Ok(Want::Vid(*v)))
        }
        None => None,
    }
}

fn read_acts(j: &J, h: &Hist, r: &Ret) -> Result<Option<Act>, String> {
    let mut keys = vec![];
    for (k, o) in &r.reads {
        let Some(o) = o else { continue };
        if let Some(w) = want(o) {
            if w == Want::Vid(0) {
                keys.push((k.clone(), Want::Len(0)));
            } else {
                keys.push((k.clone(), w));
            }
        } else if let Some(w) = want_part(j, o) {
            keys.push((k.clone(), w?));
        }
    }
    if let (Op::Stat { key }, Some((n, _))) = (&h.op, r.stat) {
        keys.push((key.clone(), Want::Len(n)));
    }
    let prefix = match &h.op {
        Op::List { prefix } | Op::CliList { prefix } => Some(prefix.clone()),
        Op::Read { list: Some(p), .. } => Some(p.clone()),
        _ => None,
    };
    let list = match (&r.list, prefix) {
        (Some(l), Some(p)) => {
            let mut l: Vec<(K, u64)> = l.iter().map(|(k, n, _)| (k.clone(), *n)).collect();
            l.sort();
            Some((p, l))
        }
        _ => None,
    };
    if keys.is_empty() && list.is_none() {
        return Ok(None);
    }
    Ok(Some(Act::Read { keys, list }))
}

fn batch_steps(items: &[Item], r: Option<&Ret>) -> Vec<Step> {
    let mut steps = vec![];
    for it in items {
        for (k, v, _) in item_puts(it) {
            if r.is_some_and(|r| !r.staged.contains(&v)) {
                continue;
            }
            steps.push(Step::Put(k, v));
        }
    }
    if let Some(r) = r {
        for (i, vid, empty) in &r.renames {
            if let (Item::RenameKey { from, to }, true) = (&items[*i], *empty) {
                steps.push(Step::RenameEmpty(from.clone(), to.clone()));
                continue;
            }
            let to = match &items[*i] {
                Item::RenameKey { to, .. } | Item::RenameSlot { to, .. } => to.clone(),
                _ => continue,
            };
            if let Some(v) = vid {
                steps.push(Step::RenameVid(*v, to));
            }
        }
    }
    steps
}

/// The model's view of one operation of the history; more than one when it looks something up
/// before it acts.
fn acts(j: &J, h: &Hist) -> Result<Vec<Act>, String> {
    let mut out = vec![];
    let killed = h.r.is_none();
    let outcome = match h.r.as_ref().and_then(|r| r.err.as_ref()) {
        _ if killed => Out::Unknown,
        None => Out::Ok,
        Some((EK::NoSuchKey, _)) => Out::NoSuchKey,
        Some((EK::Constraint, _)) => Out::Exists,
        Some((EK::Sqlite | EK::Other, t))
            if t.starts_with("C code")
                && matches!(h.op, Op::MovePrefix { .. } | Op::Rename { .. })
                && h.faults_any == 0
                && !may_be_busy(j) =>
        {
            Out::Exists
        }
        // A failed operation has no effect.
        Some(_) => return Ok(vec![]),
    };
    match &h.op {
        Op::Put { key, vid, .. } | Op::CloneFile { key, vid, .. } | Op::CliPut { key, vid, .. } => {
            out.push(Act::Write(vec![Step::Put(key.clone(), *vid)]))
        }
        Op::Huge { key, .. } => out.push(Act::Write(vec![Step::Put(key.clone(), HUGE_VID)])),
        Op::Batch { items, commit } => {
            if let Some(r) = &h.r {
                for (i, vid, empty) in &r.renames {
                    if let Item::RenameKey { from, .. } = &items[*i] {
                        let w = match (vid, empty) {
                            (Some(v), _) => Want::Vid(*v),
                            (None, true) => Want::Len(0),
                            (None, false) => Want::Missing,
                        };
                        out.push(Act::Read { keys: vec![(from.clone(), w)], list: None });
                    }
                }
            }
            if *commit {
                let steps = batch_steps(items, h.r.as_ref());
                if !steps.is_empty() {
                    out.push(Act::Write(steps));
                }
            }
        }
        Op::Delete { key } => {
            out.push(Act::Delete(key.clone(), outcome, h.r.as_ref().and_then(|r| r.stat).map(|s| s.0)))
        }
        Op::Rename { from, to } => out.push(Act::Rename(from.clone(), to.clone(), outcome)),
        Op::MovePrefix { from, to } => out.push(Act::MovePrefix(from.clone(), to.clone(), outcome)),
        Op::DeletePrefix { prefix } => out.push(Act::DeletePrefix(prefix.clone())),
        // Judged against the reader's own result.
        Op::SnapRead { .. } => {}
        _ => {
            if let Some(r) = &h.r {
                if outcome == Out::Ok {
                    if let Some(a) = read_acts(j, h, r)? {
                        out.push(a);
                    }
                }
            }
        }
    }
    Ok(out)
}

fn linear(j: &mut J, res: &mut RunResult) {
    let mut ops = vec![];
    let s = j.s;
    for h in &s.hist {
        if j.r.plan.old_version.is_some() && h.phase == 0 {
            continue;
        }
        if h.r.is_none() && !h.killed {
            // The run was cut short.
            if j.s.viol.is_none() {
                j.v("harness", format!("operation without end {:?}", h.op));
            }
        }
        match acts(j, h) {
            Err(d) => {
                let d = format!("{}: {}", j.at(h), d);
                j.v("corrupt", d);
            }
            Ok(acts) => {
                for act in acts {
                    let pure = matches!(act, Act::Read { .. });
                    if h.r.is_none() && pure {
                        continue;
                    }
                    ops.push(LOp {
                        inv: h.inv,
                        ret: h.ret.unwrap_or(u64::MAX),
                        kill: h.killed.then_some(h.kill_seq),
                        act,
                        text: format!(
                            "c{} {:?} -> {}",
                            h.client,
                            h.op,
                            h.r.as_ref().map(short).unwrap_or("killed".into())
                        ),
                    });
                }
            }
        }
    }
    match lin::check(&ops, Default::default(), &j.lens, 300_000) {
        Verdict::Ok { .. } => {}
        Verdict::Budget => res.inconclusive = true,
        Verdict::Bad { why, .. } => j.v("history", why),
    }
}

// --- limits

fn limits(j: &mut J) {
    let max = j.r.plan.limit.unwrap();
    let s = j.s;
    for h in &s.hist {
        let Some(r) = &h.r else { continue };
        if r.err.is_some() {
            continue;
        }
        let all = match &h.op {
            Op::List { prefix } => prefix.0.is_empty(),
            Op::Read { list: Some(p), .. } => p.0.is_empty(),
            _ => false,
        };
        if let (true, Some(l)) = (all, &r.list) {
            let sum: u64 = l.iter().map(|i| i.1).sum();
            if sum > max {
                let d = format!("{} shows {} bytes, limit {}", j.at(h), sum, max);
                j.v("limit", d);
            }
        }
        if r.sums.is_some() {
            let sum: u64 = r.fsck.iter().map(|i| i.len).sum();
            if sum > max {
                let d = format!("{}: {} bytes stored, limit {}", j.at(h), sum, max);
                j.v("limit", d);
            }
        }
    }
    if s.viol.is_none() {
        plausible(j);
    }
}

/// Values may disappear at any time by eviction; but what is read must have been written to the
/// key, and not before something else that was complete.
fn plausible(j: &mut J) {
    let s = j.s;
    // renames make keys move; those plans are judged in turns only
    if j.r.plan.all_ops().any(|o| match o {
        Op::Rename { .. } | Op::MovePrefix { .. } => true,
        Op::Batch { items, .. } => {
            items.iter().any(|i| matches!(i, Item::RenameKey { .. } | Item::RenameSlot { .. }))
        }
        _ => false,
    }) {
        return;
    }
    let mut writes: BTreeMap<K, Vec<(u64, u64, Option<Vid>)>> = BTreeMap::new();
    for h in &s.hist {
        let ok = h.r.as_ref().is_none_or(|r| r.err.is_none());
        if !ok {
            continue;
        }
        let ret = h.ret.unwrap_or(u64::MAX);
        match &h.op {
            Op::Put { key, vid, .. } | Op::CloneFile { key, vid, .. } => {
                writes.entry(key.clone()).or_default().push((h.inv, ret, Some(*vid)))
            }
            Op::Batch { items, commit: true } => {
                for st in batch_steps(items, h.r.as_ref()) {
                    if let Step::Put(k, v) = st {
                        writes.entry(k).or_default().push((h.inv, ret, Some(v)));
                    }
                }
            }
            Op::Delete { key } if h.r.is_some() => {
                writes.entry(key.clone()).or_default().push((h.inv, ret, None))
            }
            Op::DeletePrefix { prefix } if h.r.is_some() => {
                let ks: Vec<K> = writes.keys().filter(|k| k.0.starts_with(&prefix.0)).cloned().collect();
                for k in ks {
                    writes.get_mut(&k).unwrap().push((h.inv, ret, None));
                }
            }
            _ => {}
        }
    }
    for h in &s.hist {
        let Some(r) = &h.r else { continue };
        if r.err.is_some() {
            continue;
        }
        for (k, o) in &r.reads {
            let Some(Obs::Val { vid, .. }) = o else { continue };
            if matches!(h.op, Op::SnapRead { .. }) {
                continue;
            }
            let none = vec![];
            let w = writes.get(k).unwrap_or(&none);
            let ok = w.iter().any(|(inv, ret, v)| {
                *v == Some(*vid)
                    && *inv < h.ret.unwrap()
                    && !w.iter().any(|(i2, r2, v2)| *v2 != Some(*vid) && i2 > ret && *r2 < h.inv)
            });
            if !ok {
                let d = format!("{} key {:?} gave value {}; writes {:?}", j.at(h), k, vid, w);
                j.v("history", d);
            }
        }
    }
}

// --- one operation at a time: the manifest before and after each operation

type Rows = BTreeMap<K, FsckRow>;

fn rows_of(r: &Ret) -> Rows {
    r.fsck.iter().map(|f| (f.key.clone(), f.clone())).collect()
}

fn turns(j: &mut J, res: &mut RunResult) {
    let s = j.s;
    let mut prev: Option<(Rows, BTreeMap<K, Vid>)> = None;
    let mut hs: Vec<&Hist> = s.hist.iter().collect();
    hs.sort_by_key(|h| h.inv);
    let mut checked = 0;
    let mut last_ret = 0;
    // What handles have been told since they were opened.
    let mut told: BTreeMap<(usize, u8), u64> = BTreeMap::new();
    for h in hs {
        let at = (h.proc, s.clients[h.client as usize].handle);
        let limit = told.get(&at).copied().or(j.r.plan.limit0).or(j.r.plan.limit);
        match &h.op {
            Op::SetLimits { max: Some(m), .. } if h.r.as_ref().is_some_and(|r| r.err.is_none()) => {
                told.insert(at, *m);
            }
            Op::Reopen => {
                told.remove(&at);
            }
            _ => {}
        }
        if h.phase >= 3 && matches!(h.op, Op::Read { .. }) {
            // The last audit's own reads.
            break;
        }
        if h.phase >= 3 && !matches!(h.op, Op::Fsck) {
            // closing and the final audit are judged elsewhere; nothing there writes
            continue;
        }
        let Some(r) = &h.r else {
            prev = None;
            continue;
        };
        if matches!(h.op, Op::CloseWait | Op::Close | Op::EnsureOpen | Op::Sleep { .. }) && r.sums.is_none() {
            continue;
        }
        if h.inv < last_ret {
            // not in turn
            prev = None;
            last_ret = last_ret.max(h.ret.unwrap());
            continue;
        }
        last_ret = h.ret.unwrap();
        if r.sums.is_none() {
            prev = None;
            continue;
        }
        let after = rows_of(r);
        let model = match &prev {
            Some((before, model)) => {
                checked += 1;
                turn(j, h, r, before, model, &after, limit)
            }
            None => {
                // The store's state is unknown only at the start, when it is empty.
                if h.phase == 0 && checked == 0 {
                    checked += 1;
                    turn(j, h, r, &Rows::new(), &BTreeMap::new(), &after, limit)
                } else {
                    BTreeMap::new()
                }
            }
        };
        if j.viols.len() > 4 {
            return;
        }
        prev = Some((after, model));
    }
    let _ = res;
}

fn ms(ns: i64) -> i64 {
    ns.div_euclid(1_000_000)
}

fn turn(
    j: &mut J,
    h: &Hist,
    r: &Ret,
    before: &Rows,
    model: &BTreeMap<K, Vid>,
    after: &Rows,
    limit: Option<u64>,
) -> BTreeMap<K, Vid> {
    let (lo, hi) = (ms(h.inv_wall) - 1, ms(h.ret_wall));
    let in_op = |t: i64| h.jumps > 0 || (lo..=hi).contains(&t);
    let mut m: BTreeMap<K, Vid> =
        model.iter().filter(|(k, _)| before.contains_key(k)).map(|(k, v)| (k.clone(), *v)).collect();
    // A key whose value is not known (the model was lost) takes part with its row only.
    let failed = r.err.is_some();
    let mut acts_ = match acts(j, h) {
        Ok(a) => a,
        Err(d) => {
            let d = format!("{}: {}", j.at(h), d);
            j.v("corrupt", d);
            vec![]
        }
    };
    if failed {
        acts_.retain(|a| matches!(a, Act::Delete(..) | Act::Rename(..) | Act::MovePrefix(..)));
    }
    // Expected rows before eviction: key -> (row before, None if written now)
    let mut exp: BTreeMap<K, Option<FsckRow>> =
        before.iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect();
    let mut wrote = false;
    // Renamed in a batch, after a read in it: whether that read was recorded is not known here.
    let mut moved: BTreeSet<K> = BTreeSet::new();
    for a in &acts_ {
        let known = m.len() == exp.len();
        match lin::apply(&m, a, &j.lens) {
            Some(n) => {
                // carry the rows along
                let mut e2: BTreeMap<K, Option<FsckRow>> = BTreeMap::new();
                match a {
                    Act::Read { .. } => e2 = exp.clone(),
                    Act::Write(steps) => {
                        wrote = true;
                        e2 = exp.clone();
                        let mut mm = m.clone();
                        for st in steps {
                            match st {
                                Step::Put(k, v) => {
                                    moved.remove(k);
                                    e2.insert(k.clone(), None);
                                    mm.insert(k.clone(), *v);
                                }
                                Step::RenameEmpty(from, to) => {
                                    if mm.get(from) == Some(&0) {
                                        let row = e2.remove(from).unwrap();
                                        mm.remove(from);
                                        moved.remove(from);
                                        moved.insert(to.clone());
                                        e2.insert(to.clone(), row);
                                        mm.insert(to.clone(), 0);
                                    }
                                }
                                Step::RenameVid(v, to) => {
                                    let k = mm.iter().find(|(_, x)| *x == v).map(|(k, _)| k.clone());
                                    if let Some(k) = k {
                                        let row = e2.remove(&k).unwrap();
                                        mm.remove(&k);
                                        e2.insert(to.clone(), row);
                                        mm.insert(to.clone(), *v);
                                        moved.remove(&k);
                                        moved.insert(to.clone());
                                    }
                                }
                            }
                        }
                    }
                    Act::Delete(k, ..) => {
                        wrote = true;
                        e2 = exp.clone();
                        e2.remove(k);
                    }
                    Act::Rename(from, to, out) => {
                        wrote = true;
                        e2 = exp.clone();
                        if *out == Out::Ok {
                            let row = e2.remove(from).unwrap();
                            e2.insert(to.clone(), row);
                        }
                    }
                    Act::MovePrefix(from, to, out) => {
                        wrote = true;
                        for (k, row) in &exp {
                            let mut nk = k.clone();
                            if *out == Out::Ok && k.0.starts_with(&from.0) {
                                nk = K([&to.0[..], &k.0[from.0.len()..]].concat());
                            }
                            e2.insert(nk, row.clone());
                        }
                    }
                    Act::DeletePrefix(p) => {
                        wrote = true;
                        e2 = exp.clone();
                        e2.retain(|k, _| !k.0.starts_with(&p.0));
                    }
                }
                exp = e2;
                m = n;
            }
            None if !known => {}
            None => {
                let d = format!("{} -> {}: does not follow from {:?}", j.at(h), short(r), m);
                j.v("history", d);
            }
        }
    }
    // Which keys were used by a completed read?
    let touched: BTreeSet<K> = match &h.op {
        Op::Read { keys, begin: true, .. } if !failed => keys.iter().cloned().collect(),
        Op::ReadSingle { key, .. } | Op::ReadPart { key, .. } | Op::Stat { key } | Op::CliRead { key } if !failed => {
            [key.clone()].into()
        }
        Op::Batch { items, .. } => items
            .iter()
            .filter_map(|i| if let Item::RenameKey { from, .. } = i { Some(from.clone()) } else { None })
            .collect(),
        _ => BTreeSet::new(),
    };
    // A failed read may have been recorded or not.
    let maybe: BTreeSet<K> = match &h.op {
        Op::Read { keys, .. } if failed => keys.iter().cloned().collect(),
        Op::ReadSingle { key, .. } | Op::ReadPart { key, .. } | Op::Stat { key } | Op::CliRead { key } if failed => {
            [key.clone()].into()
        }
        _ => BTreeSet::new(),
    };
    if !touched.is_empty() {
        wrote = true;
    }
    let moved_in_batch = matches!(&h.op, Op::Batch { items, .. } if items.iter().any(|i| matches!(i, Item::RenameKey{..}|Item::RenameSlot{..})));
    // The values that a batch looked up by key in order to rename them.
    let looked_up: BTreeSet<(Option<u32>, u64, u64)> = match &h.op {
        Op::Batch { items, .. } => items
            .iter()
            .filter_map(|i| if let Item::RenameKey { from, .. } = i { before.get(from) } else { None })
            .map(|r| (r.file, r.off, r.len))
            .collect(),
        _ => BTreeSet::new(),
    };
    for (k, row) in after {
        match exp.get(k) {
            None => {
                let d = format!("{} -> {}: afterwards {:?} is stored", j.at(h), short(r), k);
                j.v("history", d);
            }
            Some(None) => {
                let want = m.get(k).map(|v| j.lens.get(v).copied().unwrap_or(0));
                if want.is_some_and(|w| w != row.len) {
                    let d = format!("{}: {:?} stored with {} bytes", j.at(h), k, row.len);
                    j.v("history", d);
                }
                if !in_op(row.last_used_ms) {
                    let d = format!(
                        "{} at {}..{}: {:?} written with last_used {}",
                        j.at(h), lo, hi, k, row.last_used_ms
                    );
                    j.v("last_used", d);
                }
            }
            Some(Some(old)) => {
                if (old.file, old.off, old.len) != (row.file, row.off, row.len) {
                    let d = format!("{}: {:?} changed from {:?} to {:?}", j.at(h), k, old, row);
                    j.v("history", d);
                }
                if maybe.contains(k) || moved_in_batch && (failed || row.len == 0) {
                    continue;
                }
                // RenameKey reads the key it renames; the value may be anywhere afterwards.
                let used = if moved_in_batch {
                    looked_up.contains(&(row.file, row.off, row.len))
                } else {
                    touched.contains(k)
                };
                if used {
                    if !in_op(row.last_used_ms) {
                        let d = format!(
                            "{} at {}..{}: {:?} read, last_used {}",
                            j.at(h), lo, hi, k, row.last_used_ms
                        );
                        j.v("last_used", d);
                    }
                } else if row.last_used_ms != old.last_used_ms {
                    let d = format!(
                        "{}: last_used of {:?} went from {} to {}",
                        j.at(h), k, old.last_used_ms, row.last_used_ms
                    );
                    j.v("last_used", d);
                }
            }
        }
    }
    // Returned times agree with the stored ones.
    let mut told: Vec<(K, i64)> = vec![];
    for (k, o) in &r.reads {
        match o {
            Some(Obs::Val { last_used_ms: UNTOLD, .. } | Obs::Empty { last_used_ms: UNTOLD }) => {}
            Some(Obs::Val { last_used_ms, .. }) | Some(Obs::Empty { last_used_ms }) => {
                told.push((k.clone(), *last_used_ms))
            }
            Some(Obs::Part { last_used_ms: Some(t), .. }) => told.push((k.clone(), *t)),
            _ => {}
        }
    }
    if let (Op::Stat { key }, Some((_, t))) = (&h.op, r.stat) {
        told.push((key.clone(), t));
    }
    if let (Op::Rename { to, .. }, Some((_, t))) = (&h.op, r.stat) {
        told.push((to.clone(), t));
    }
    if let Some(l) = &r.list {
        if matches!(h.op, Op::List { .. }) {
            told.extend(l.iter().map(|(k, _, t)| (k.clone(), *t)));
        }
    }
    if !failed && !matches!(h.op, Op::SnapRead { .. } | Op::Batch { .. }) {
        for (k, t) in told {
            if let Some(row) = after.get(&k) {
                if row.last_used_ms != t {
                    let d = format!("{} told {} for {:?}, stored {}", j.at(h), t, k, row.last_used_ms);
                    j.v("last_used", d);
                }
            }
        }
    }
    // Eviction
    let gone: Vec<K> = exp.keys().filter(|k| !after.contains_key(k)).cloned().collect();
    let lens = j.lens.clone();
    let len_of = |k: &K| match &exp[k] {
        Some(row) => row.len,
        None => m.get(k).map(|v| lens.get(v).copied().unwrap_or(0)).unwrap_or(0),
    };
    let total: u64 = exp.keys().map(len_of).sum();
    let left: u64 = after.values().map(|r| r.len).sum();
    // Which transactions look at the limit is told apart only where it changes: not putting values in
    // they may find more than it allows, and may drop what's too much.
    let puts = acts_.iter().any(|a| matches!(a, Act::Write(_)));
    let (limit, wrote) = match (&h.op, j.r.plan.limit0) {
        (Op::SetLimits { max, .. }, _) => (*max, true),
        (_, Some(_)) => (limit, true),
        _ => (limit, wrote),
    };
    match limit {
        Some(max) if !failed && wrote && h.phase <= 2 => {
            if total <= max && !gone.is_empty() {
                let d = format!("{}: {:?} dropped although {} <= {}", j.at(h), gone, total, max);
                j.v("evict", d);
            }
            if total > max && left > max && (puts || j.r.plan.limit0.is_none()) {
                let d = format!("{}: {} bytes left, limit {}", j.at(h), left, max);
                j.v("limit", d);
            }
            if total > max && !gone.is_empty() {
                let lu = |k: &K| match &exp[k] {
                    _ if moved.contains(k) => (i64::MIN, true),
                    Some(_) if touched.contains(k) => (lo, true),
                    Some(row) => (row.last_used_ms, false),
                    None => (lo, true),
                };
                let newest = gone
                    .iter()
                    .map(|k| lu(k).0)
                    .max()
                    .unwrap();
                let oldest_kept = after.values().map(|r| r.last_used_ms).min();
                if oldest_kept.is_some_and(|o| o < newest) && h.jumps == 0 {
                    let d = format!(
                        "{}: dropped {:?}, last used up to {}, but kept one last used {:?}",
                        j.at(h), gone, newest, oldest_kept
                    );
                    j.v("evict", d);
                }
                // The last one dropped was needed.
                let cand: Vec<&K> = gone.iter().filter(|k| lu(k).1 || lu(k).0 == newest).collect();
                if !cand.iter().any(|k| left + len_of(k) > max) {
                    let d = format!(
                        "{}: dropped {:?} leaving {} bytes of {}: more than needed",
                        j.at(h), gone, left, max
                    );
                    j.v("evict", d);
                }
            }
        }
        _ => {
            if !gone.is_empty() {
                let d = format!("{} -> {}: {:?} disappeared", j.at(h), short(r), gone);
                j.v("history", d);
            }
        }
    }
    m.retain(|k, _| after.contains_key(k));
    m
}

// --- the final state

fn last_fsck<'a>(j: &J<'a, '_>) -> Option<(&'a Hist, &'a Ret)> {
    j.s.hist
        .iter()
        .rev()
        .find(|h| matches!(h.op, Op::Fsck))
        .and_then(|h| h.r.as_ref().map(|r| (h, r)))
        .filter(|(_, r)| r.err.is_none())
}

fn values_path(id: u32) -> Vec<u8> {
    format!("/simfs/db/values-{:08x}", id).into_bytes()
}

fn fsck(j: &mut J) {
    let s = j.s;
    let all: Vec<&Hist> = s.hist.iter().filter(|h| matches!(h.op, Op::Fsck)).collect();
    for h in &all {
        let Some(r) = &h.r else { continue };
        rows_check(j, h, r);
    }
    let Some((_, r)) = last_fsck(j) else { return };
    if let Some(t) = &r.text {
        if t != "journal_mode=wal user_version=3 integrity=ok" {
            j.v("fsck", format!("manifest: {}", t));
        }
    }
    // bytes of every row against what the last audit read
    let read = s.hist.iter().rev().find(|h| matches!(h.op, Op::Read { .. }) && h.phase == 3);
    let Some(rr) = read.and_then(|h| h.r.as_ref()) else { return };
    for row in &r.fsck {
        let got = rr.reads.iter().find(|(k, _)| *k == row.key).and_then(|(_, o)| o.clone());
        let Some(file) = row.file else {
            if row.len != 0 {
                j.v("fsck", format!("{:?} without file", row));
            }
            continue;
        };
        let Ok(ino) = s.fs.lookup(&values_path(file)) else {
            j.v("fsck", format!("{:?}: no such file", row));
            continue;
        };
        let mem = s.fs.mem(ino).unwrap();
        if row.len > 1 << 30 {
            if m_size(mem) < row.off + row.len {
                j.v("fsck", format!("{:?} extends beyond the file ({} bytes)", row, m_size(mem)));
            }
            continue;
        }
        let mut b = vec![0u8; row.len as usize];
        let n = m_pread(mem, b.as_mut_ptr(), b.len(), row.off).unwrap_or(0);
        if n < b.len() {
            j.v("fsck", format!("{:?} extends beyond the file ({} bytes there)", row, n));
            continue;
        }
        match identify(&b) {
            Err(d) => j.v("corrupt", format!("stored bytes of {:?}: {}", row, d)),
            Ok(v) => {
                if j.lens.get(&v) != Some(&row.len) {
                    j.v("corrupt", format!("stored {:?} holds value {} of {:?}", row, v, j.lens.get(&v)));
                }
                if let Some(Obs::Val { vid, .. }) = got {
                    if vid != v {
                        j.v("corrupt", format!("{:?} holds value {}, read as {}", row, v, vid));
                    }
                }
            }
        }
    }
}

fn rows_check(j: &mut J, h: &Hist, r: &Ret) {
    if r.err.is_some() {
        return;
    }
    let sum: u64 = r.fsck.iter().map(|f| f.len).sum();
    if r.sums != Some(sum as i64) {
        let d = format!("{}: stored total {:?}, values sum to {}", j.at(h), r.sums, sum);
        j.v("fsck", d);
    }
    let mut v: Vec<&FsckRow> = r.fsck.iter().filter(|f| f.file.is_some()).collect();
    v.sort_by_key(|f| (f.file, f.off));
    for w in v.windows(2) {
        if w[0].file == w[1].file && w[0].off + w[0].len > w[1].off {
            let d = format!("{:?} overlaps {:?}", w[0], w[1]);
            j.v("fsck", d);
        }
    }
}

/// Whole blocks of values that are gone are no longer allocated.
fn space(j: &mut J) {
    let p = j.r.plan;
    let s = j.s;
    // A process that is killed can't reclaim what it deleted, nor can one whose handle is closed when
    // the reclaimer could not open the manifest.
    if !p.check_space || j.r.killed_any || s.db_open_faults > 0 {
        return;
    }
    let Some(alloc) = &s.alloc else { return };
    // the rows at that time
    let Some(r) = s
        .hist
        .iter()
        .filter(|h| matches!(h.op, Op::Fsck) && h.phase == 3)
        .find_map(|h| h.r.as_ref())
    else {
        return;
    };
    let mut committed: BTreeSet<Vid> = BTreeSet::new();
    for h in &s.hist {
        let Some(ret) = &h.r else { continue };
        if ret.err.is_some() {
            continue;
        }
        match &h.op {
            Op::Put { vid, .. } | Op::CloneFile { vid, .. } | Op::CliPut { vid, .. } => {
                committed.insert(*vid);
            }
            Op::Batch { items, commit: true } => {
                for st in batch_steps(items, Some(ret)) {
                    if let Step::Put(_, v) = st {
                        committed.insert(v);
                    }
                }
                // A value staged under a key that is staged again later was never visible.
                let mut last: BTreeMap<K, Vid> = BTreeMap::new();
                for st in batch_steps(items, Some(ret)) {
                    if let Step::Put(k, v) = st {
                        if let Some(old) = last.insert(k, v) {
                            committed.remove(&old);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let bs = (p.fs.block_size as u64).max(4096);
    for e in &s.exts {
        if !committed.contains(&e.vid) {
            continue;
        }
        let Some((path, _, regions)) = alloc.iter().find(|a| a.1 == e.ino) else { continue };
        let name = String::from_utf8_lossy(path).into_owned();
        let id = u32::from_str_radix(name.rsplit('-').next().unwrap(), 16).unwrap_or(0);
        let live = |a: u64, b: u64| {
            r.fsck.iter().any(|f| f.file == Some(id) && f.off < b && a < f.off + f.len)
        };
        let mut b = e.off.div_ceil(bs) * bs;
        while b + bs <= e.off + e.len {
            let allocated = regions.iter().any(|(x, y)| *x < b + bs && b < *y);
            if allocated && !live(b, b + bs) {
                let d = format!(
                    "value {} is gone, but its block at {} of {} (its bytes {}..{}) is still allocated",
                    e.vid, b, name, e.off, e.off + e.len
                );
                j.v("space", d);
                return;
            }
            b += bs;
        }
    }
}

/// What the tool says of missing holes, and what it leaves after punching them.
fn holes(j: &mut J) {
    let s = j.s;
    let (Some(alloc), Some(punched)) = (&s.alloc, &s.alloc_punched) else { return };
    if s.faults_total > 0 {
        return;
    }
    let mut rows = vec![];
    let mut lists: Vec<(bool, &Vec<(K, u64, i64)>)> = vec![];
    for h in s.hist.iter().filter(|h| h.phase == 3) {
        let Some(r) = &h.r else { return };
        match &h.op {
            Op::Fsck if lists.is_empty() => rows = r.fsck.clone(),
            Op::CliHoles { fragments } => {
                let Some(l) = &r.list else { return };
                lists.push((*fragments, l));
            }
            _ => {}
        }
    }
    if lists.len() != 3 {
        return;
    }
    let bs = (j.r.plan.fs.block_size as u64).max(4096);
    let whole = |a: u64, b: u64| (a.div_ceil(bs) * bs, b / bs * bs);
    // What is between values, up to the last
    let missing = |alloc: &Vec<(Vec<u8>, u64, Vec<(u64, u64)>)>| {
        let mut v: Vec<(String, u64, u64)> = vec![];
        for (path, _, regions) in alloc {
            let name = String::from_utf8_lossy(path).into_owned();
            let name = name.rsplit('-').next().unwrap().to_string();
            let id = u32::from_str_radix(&name, 16).unwrap_or(0);
            let mut vals: Vec<(u64, u64)> =
                rows.iter().filter(|f| f.file == Some(id) && f.len > 0).map(|f| (f.off, f.len)).collect();
            vals.sort();
            let mut at = 0;
            for (off, len) in vals {
                for (d, h) in regions {
                    let (a, b) = (at.max(*d), off.min(*h));
                    if a < b {
                        v.push((name.clone(), a, b));
                    }
                }
                at = off + len;
            }
        }
        v.sort();
        v
    };
    let all = missing(alloc);
    let blocks = |l: &[(String, u64, u64)]| -> Vec<(String, u64, u64)> {
        l.iter().filter(|(_, a, b)| whole(*a, *b).0 < whole(*a, *b).1).cloned().collect()
    };
    for (i, (fragments, l)) in lists.iter().enumerate() {
        let mut got: Vec<(String, u64, u64)> =
            l.iter().map(|(k, a, b)| (String::from_utf8_lossy(&k.0).into_owned(), *a, *b as u64)).collect();
        got.sort();
        let want = match (i, fragments) {
            (2, _) => vec![],
            (_, true) => all.clone(),
            _ => blocks(&all),
        };
        if got != want {
            let d = format!(
                "the tool lists missing holes {:?} {}, expected {:?}",
                got,
                ["with fragments", "without fragments", "after punching them"][i],
                want
            );
            j.v("holes", d);
        }
    }
    let left = blocks(&missing(punched));
    if !left.is_empty() {
        j.v("holes", format!("the tool has not punched {:?}", left));
    }
}

fn leftovers(j: &mut J) {
    let Some(left) = &j.r.snap_left else { return };
    let clean = !j.r.killed_any && j.s.faults_total == 0;
    for f in left {
        let name = f.strip_prefix("/simfs/db/").unwrap();
        let known = name.starts_with("values-") || name.starts_with("manifest.db");
        if name.starts_with("snapshot-") {
            // Creating the directory and the file in it are two steps for a dying process and a
            // clean-up alike, so this holds with deaths, too.
            if j.s.faults_total == 0 {
                j.v("leftover", format!("{} is left", f));
            }
        } else if !known && clean {
            j.v("leftover", format!("{} is left", f));
        }
    }
}

fn upgrade(j: &mut J) {
    if j.r.plan.old_version.is_none() {
        return;
    }
    for (path, ino, _) in j.s.fs.files() {
        if j.r.old_inos.contains(&ino) {
            j.v("upgrade", format!("{} of the old version is left", String::from_utf8_lossy(&path)));
        }
    }
}
