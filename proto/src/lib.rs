//! What the simulator (`sim`) and the code under test's harness (`node`) say to each other: the
//! operations of a plan, their observed results, and the self-identifying content of values.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// A key. Serialised as a string with one character per byte, so that replay files stay readable.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct K(pub Vec<u8>);

impl K {
    pub fn new(b: &[u8]) -> Self {
        K(b.to_vec())
    }
}
impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "\"{}\"", self.0.escape_ascii())
    }
}
impl Serialize for K {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let t: String = self.0.iter().map(|b| *b as char).collect();
        s.serialize_str(&t)
    }
}
impl<'de> Deserialize<'de> for K {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Ok(K(s.chars().map(|c| c as u32 as u8).collect()))
    }
}

/// Identifies one written value. Unique within a run.
pub type Vid = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Style {
    /// SnapshotValue::view
    View,
    /// ReadAt::read_at in pieces of this size
    ReadAt(u32),
    /// SnapshotValue::new_reader
    Stream,
    /// SnapshotValue::read into a buffer of this many spare bytes
    Read(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Item {
    /// begin a value, write it in `chunks` pieces with a pause between them, stage it
    Put { key: K, vid: Vid, len: u32, chunks: u32, pause_ms: u32 },
    /// begin a value, write it, and drop the value writer without staging
    Abandon { vid: Vid, len: u32 },
    /// copy_from a source that fails after `bad` bytes; then, if `retry`, copy_from the good source
    /// on the same value writer and stage it; else drop the value writer
    Fail { key: K, vid: Vid, len: u32, bad: u32, retry: bool },
    /// clone_file
    Clone { key: K, vid: Vid, len: u32, pos: u32 },
    /// Several value writers open at once, written in turns, staged in reverse order.
    Multi { vals: Vec<(K, Vid, u32)>, chunks: u32 },
    /// look `from` up and rename the value found to `to`
    RenameKey { from: K, to: K },
    /// rename the value kept in a snapshot slot
    RenameSlot { slot: u8, to: K },
    Pause { ms: u32 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Edit {
    Write { off: u64, len: u64 },
    /// possum's punchfile
    Punch { off: u64, len: u64 },
    /// Files do not get shorter.
    Grow { len: u64 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Put { key: K, vid: Vid, len: u32, chunks: u32 },
    Batch { items: Vec<Item>, commit: bool },
    /// Look up keys in one reader. `begin`: take the snapshot (else abandon the reader). With
    /// `keep`, the snapshot values stay in this slot.
    Read { keys: Vec<K>, list: Option<K>, style: Style, keep: Option<u8>, begin: bool, pause_ms: u32 },
    ReadSingle { key: K, style: Style },
    /// part of a value: offset and length in 1/1000 of the value's length plus a few bytes
    ReadPart { key: K, off: u64, n: u32 },
    SnapRead { slot: u8, style: Style },
    SnapDrop { slot: u8 },
    Delete { key: K },
    Rename { from: K, to: K },
    MovePrefix { from: K, to: K },
    DeletePrefix { prefix: K },
    List { prefix: K },
    Stat { key: K },
    CloneFile { key: K, vid: Vid, len: u32, pos: u32, missing: bool },
    /// Imports a file of this size, nearly all of it a hole.
    Huge { key: K, len: u64 },
    Cleanup,
    Sleep { ms: u32 },
    /// Drop the handle (this client's reference to it) and open a new one.
    Reopen,
    /// Drop the handle and do not open another.
    Close,
    /// Wait for the handle's value puncher after dropping the handle.
    CloseWait,
    SetLimits { max: Option<u64>, no_punch: bool },
    /// Open the handle if it is not open.
    EnsureOpen,
    /// Changes a sparse file of its own.
    Sparse { file: u8, edits: Vec<Edit> },
    /// Walks the data and hole regions of a sparse file, or of all storage files.
    Regions { file: Option<u8>, lazy: bool },
    /// The command line tool's write-file: the file's name is the key.
    CliPut { key: K, vid: Vid, len: u32 },
    /// its read-key
    CliRead { key: K },
    /// its list-keys
    CliList { prefix: K },
    /// its print-missing-holes
    CliHoles { fragments: bool },
    /// its punch-missing-holes
    CliPunch,
    /// Harness only: raw SQL check of the manifest.
    Fsck,
    /// Harness only: make the store look like one written by an older version.
    MakeOld { version: u32 },
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Put { .. } => "put",
            Op::Batch { .. } => "batch",
            Op::Read { .. } => "read",
            Op::ReadSingle { .. } => "read_single",
            Op::ReadPart { .. } => "read_part",
            Op::SnapRead { .. } => "snap_read",
            Op::SnapDrop { .. } => "snap_drop",
            Op::Delete { .. } => "delete",
            Op::Rename { .. } => "rename",
            Op::MovePrefix { .. } => "move_prefix",
            Op::DeletePrefix { .. } => "delete_prefix",
            Op::List { .. } => "list",
            Op::Stat { .. } => "stat",
            Op::CloneFile { .. } => "clone_file",
            Op::Huge { .. } => "huge",
            Op::Cleanup => "cleanup_snapshots",
            Op::Sleep { .. } => "sleep",
            Op::Reopen => "reopen",
            Op::Close => "close",
            Op::CloseWait => "close_wait",
            Op::SetLimits { .. } => "set_limits",
            Op::EnsureOpen => "ensure_open",
            Op::Sparse { .. } => "sparse",
            Op::Regions { .. } => "regions",
            Op::CliPut { .. } => "cli write-file",
            Op::CliRead { .. } => "cli read-key",
            Op::CliList { .. } => "cli list-keys",
            Op::CliHoles { .. } => "cli print-missing-holes",
            Op::CliPunch => "cli punch-missing-holes",
            Op::Fsck => "fsck",
            Op::MakeOld { .. } => "make_old",
        }
    }
}

/// A last-used time, where none was told.
pub const UNTOLD: i64 = i64::MIN;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Obs {
    Missing,
    Val { vid: Vid, len: u64, last_used_ms: i64 },
    Empty { last_used_ms: i64 },
    Corrupt { desc: String },
    /// `got` bytes returned for a request of `want` bytes at `off`; `vid` if they tell
    Part { vid: Option<Vid>, off: u64, want: u64, got: u64, last_used_ms: Option<i64> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum EK {
    NoSuchKey,
    /// SQLITE_BUSY and its extended codes
    Busy,
    /// unique constraint
    Constraint,
    Io,
    Sqlite,
    Other,
    Panic,
    /// the harness found the operation not applicable (empty slot, closed handle): no call was made
    Skip,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct FsckRow {
    pub key: K,
    pub file: Option<u32>,
    pub off: u64,
    pub len: u64,
    pub last_used_ms: i64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Ret {
    pub err: Option<(EK, String)>,
    pub reads: Vec<(K, Option<Obs>)>,
    pub list: Option<Vec<(K, u64, i64)>>,
    pub n: Option<u64>,
    /// size, last_used of a stat-returning call
    pub stat: Option<(u64, i64)>,
    pub fsck: Vec<FsckRow>,
    pub sums: Option<i64>,
    pub text: Option<String>,
    /// errors of the parts of a batch that failed and were skipped by the client
    pub part_errs: Vec<(usize, EK, String)>,
    /// batch: the values that were staged
    pub staged: Vec<u32>,
    /// batch: commit was called
    pub committing: bool,
    /// batch, RenameKey / RenameSlot: (item index, vid, the value had zero length)
    pub renames: Vec<(usize, Option<Vid>, bool)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ClientSpec {
    pub id: u32,
    pub handle: u8,
    pub capi: bool,
    /// read the manifest with SQL after each operation
    pub audit: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HandleSpec {
    pub max: Option<u64>,
    pub no_punch: bool,
    pub set_limits: bool,
    pub capi: bool,
}

fn mix(mut x: u64) -> u64 {
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

/// The content of value `vid`, no byte of which is zero.
pub fn fill(vid: Vid, off: usize, out: &mut [u8]) {
    let mut i = 0;
    while i < out.len() {
        let p = off + i;
        let w = mix(((vid as u64) << 32) ^ ((p / 8) as u64) ^ 0x9e3779b97f4a7c15).to_le_bytes();
        let mut j = p % 8;
        while j < 8 && i < out.len() {
            let p = off + i;
            out[i] = if p < 4 {
                ((vid as u64 / 255u64.pow(p as u32)) % 255) as u8 + 1
            } else {
                let b = w[j];
                if b == 0 {
                    1
                } else {
                    b
                }
            };
            i += 1;
            j += 1;
        }
    }
}

pub fn content(vid: Vid, len: usize) -> Vec<u8> {
    let mut v = vec![0; len];
    fill(vid, 0, &mut v);
    v
}

/// The value of every huge file, and where it is not a hole.
pub const HUGE_VID: Vid = 251;
pub fn huge_data(len: u64) -> [(u64, usize); 3] {
    [(0, 4096), ((1 << 32) - 4096, 8192), ((len - 4096) & !4095, 4096 + (len & 4095) as usize)]
}

/// Which value is this? Vids stay below 255 within a run, so one byte is enough.
pub fn identify(b: &[u8]) -> Result<Vid, String> {
    if b.is_empty() {
        return Err("empty".into());
    }
    let mut vid = 0u64;
    for (i, x) in b.iter().take(4).enumerate() {
        if *x == 0 {
            return Err(format!("zero byte at {} of {}", i, b.len()));
        }
        vid += (*x as u64 - 1) * 255u64.pow(i as u32);
    }
    let vid = vid as Vid;
    let want = content(vid, b.len());
    if let Some(i) = (0..b.len()).find(|i| b[*i] != want[*i]) {
        let zeros = b.iter().filter(|x| **x == 0).count();
        return Err(format!(
            "starts like value {} but differs at byte {} of {} ({} zero bytes)",
            vid,
            i,
            b.len(),
            zeros
        ));
    }
    Ok(vid)
}

/// Which value has these bytes at this offset? Err if none has; Ok(None) if there are too few
/// bytes to tell.
pub fn identify_at(off: usize, b: &[u8]) -> Result<Option<Vid>, String> {
    if off == 0 && !b.is_empty() {
        return identify(b).map(Some);
    }
    if b.len() < 8 {
        return Ok(None);
    }
    let mut buf = vec![0; b.len()];
    for vid in 0..255 {
        let mut head = [0u8; 8];
        fill(vid, off, &mut head);
        if head != b[..8] {
            continue;
        }
        fill(vid, off, &mut buf);
        if buf == b {
            return Ok(Some(vid));
        }
    }
    let zeros = b.iter().filter(|x| **x == 0).count();
    Err(format!("{} bytes at offset {} belong to no value ({} zero bytes)", b.len(), off, zeros))
}
