//! The command line tool, as it is: its `main` runs in here, with its arguments from the operation
//! and its output kept. Everything else it does goes to the simulator, like possum itself.
#![allow(unused_imports, dead_code, unused_macros)]
use ::std::cell::RefCell;
use ::std::ffi::OsString;

use proto::*;

thread_local! {
    static ARGS: RefCell<Vec<OsString>> = const { RefCell::new(vec![]) };
    static OUT: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
}

mod tool {
    pub mod clap {
        pub use ::clap::*;
        pub trait Parser: ::clap::FromArgMatches + ::clap::CommandFactory + Sized {
            fn parse() -> Self {
                let args = super::super::ARGS.with(|a| a.borrow().clone());
                let m = <Self as ::clap::CommandFactory>::command().try_get_matches_from(args);
                <Self as ::clap::FromArgMatches>::from_arg_matches(&m.expect("arguments"))
                    .expect("arguments")
            }
        }
    }
    mod env_logger {
        pub fn init() {}
    }
    mod std {
        pub use ::std::*;
        pub mod io {
            pub use ::std::io::*;
            pub fn stdout() -> super::super::Stdout {
                super::super::Stdout
            }
        }
    }
    pub struct Stdout;
    impl ::std::io::Write for Stdout {
        fn write(&mut self, b: &[u8]) -> ::std::io::Result<usize> {
            super::OUT.with(|o| o.borrow_mut().extend_from_slice(b));
            Ok(b.len())
        }
        fn flush(&mut self) -> ::std::io::Result<()> {
            Ok(())
        }
    }
    impl Stdout {
        pub fn lock(self) -> Self {
            self
        }
    }
    macro_rules! print {
        ($($t:tt)*) => {{
            use ::std::io::Write as _;
            write!(Stdout, $($t)*).unwrap()
        }};
    }
    macro_rules! println {
        ($($t:tt)*) => {{
            use ::std::io::Write as _;
            writeln!(Stdout, $($t)*).unwrap()
        }};
    }
    include!("/repo/src/main.rs");
    pub fn run() -> ::anyhow::Result<()> {
        main()
    }
}

fn run(args: Vec<OsString>) -> (anyhow::Result<()>, Vec<u8>) {
    ARGS.with(|a| *a.borrow_mut() = args);
    OUT.with(|o| o.borrow_mut().clear());
    let r = tool::run();
    (r, OUT.with(|o| ::std::mem::take(&mut *o.borrow_mut())))
}

fn os(b: &[u8]) -> OsString {
    use ::std::os::unix::ffi::OsStringExt;
    OsString::from_vec(b.to_vec())
}

/// "…: A-B …"
fn region(line: &str) -> Option<(u64, u64)> {
    let r = line.rsplit_once(": ").filter(|r| r.1.starts_with(|c: char| c.is_ascii_digit() && r.1.contains('-')));
    let r = match r {
        Some(r) => r.1,
        None => line.split_once(": ")?.1,
    };
    let (a, b) = r.split(' ').next()?.split_once('-')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}

/// False: not an operation of the tool.
pub fn exec(dir: &::std::path::Path, op: &Op, ret: &mut Ret) -> bool {
    let mut args: Vec<OsString> = vec!["possum".into(), "database".into(), dir.into()];
    match op {
        Op::CliPut { key, vid, .. } => {
            crate::note_value(*vid);
            args.push("write-file".into());
            args.push(os(&[format!("/simfs/src/{}.d/", vid).as_bytes(), &key.0].concat()));
        }
        Op::CliRead { key } => {
            args.push("read-key".into());
            args.push(os(&key.0));
        }
        Op::CliList { prefix } => {
            args.push("list-keys".into());
            if !prefix.0.is_empty() {
                args.push(os(&prefix.0));
            }
        }
        Op::CliHoles { fragments } => {
            args.push("print-missing-holes".into());
            if *fragments {
                args.push("--fragments".into());
            }
        }
        Op::CliPunch => args.push("punch-missing-holes".into()),
        _ => return false,
    }
    if let Op::CliRead { key: k } | Op::CliList { prefix: k } = op {
        if ::std::str::from_utf8(&k.0).is_err() {
            ret.err = Some((EK::Skip, "the tool takes only text".into()));
            return true;
        }
    }
    let (r, out) = run(args);
    match (op, r) {
        (Op::CliRead { key }, Err(e)) if format!("{}", e) == "key not found" => {
            ret.reads.push((key.clone(), Some(Obs::Missing)))
        }
        (_, Err(e)) => ret.err = Some(crate::classify(&e)),
        (Op::CliRead { key }, Ok(())) => {
            let last_used_ms = UNTOLD;
            let o = match identify(&out) {
                _ if out.is_empty() => Obs::Empty { last_used_ms },
                Ok(vid) => Obs::Val { vid, len: out.len() as u64, last_used_ms },
                Err(desc) => Obs::Corrupt { desc },
            };
            ret.reads.push((key.clone(), Some(o)));
        }
        (Op::CliList { .. }, Ok(())) => {
            let mut lines: Vec<&[u8]> = out.split(|b| *b == b'\n').collect();
            lines.pop();
            ret.list = Some(lines.into_iter().map(|l| (K::new(l), u64::MAX, UNTOLD)).collect());
        }
        (Op::CliHoles { .. } | Op::CliPunch, Ok(())) => {
            let mut l = vec![];
            for line in String::from_utf8_lossy(&out).lines() {
                let name = line.split(": ").next().unwrap_or("");
                let name = name.rsplit('/').next().unwrap_or("");
                let name = name.strip_prefix("values-").unwrap_or(name);
                match region(line) {
                    Some((a, b)) => l.push((K::new(name.as_bytes()), a, b as i64)),
                    None => ret.text = Some(format!("line not understood: {}", line)),
                }
            }
            ret.list = Some(l);
        }
        _ => {}
    }
    true
}
