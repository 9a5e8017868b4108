//! The command-line utility as a child process.
use std::ffi::{OsStr, OsString};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Output {
    pub code: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
}

/// The built binary
pub fn binary() -> PathBuf {
    PathBuf::from(std::env::var_os("GV_CLI").unwrap_or_default())
}

static N: AtomicU64 = AtomicU64::new(0);

/// A directory which is removed with its contents
pub struct Scratch(PathBuf);

impl Scratch {
    pub fn new() -> Self {
        let base = std::env::var_os("GV_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let n = N.fetch_add(1, Ordering::Relaxed);
        let p = base.join(format!("gv-cli-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).expect("HARNESS: scratch directory");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn run(args: &[OsString], dir: &Path, log: Option<&str>) -> Result<Output, String> {
    run_into(args, dir, log, Stdio::piped())
}

/// Outputs which take nothing: a full device and a closed connection.
/// (Not a pipe nobody reads: children which are being started by other threads
/// may still hold its reading end, and then it takes a little.)
pub fn failing_output(closed: bool) -> Option<Stdio> {
    if closed {
        let (s, _) = std::os::unix::net::UnixStream::pair().ok()?;
        s.shutdown(std::net::Shutdown::Both).ok()?;
        return Some(std::os::fd::OwnedFd::from(s).into());
    }
    let f = std::fs::OpenOptions::new().write(true).open("/dev/full").ok()?;
    // (in case it is an ordinary file)
    f.metadata().ok().filter(|m| !m.is_file())?;
    Some(f.into())
}

pub fn run_into(args: &[OsString], dir: &Path, log: Option<&str>, out: Stdio) -> Result<Output, String> {
    let bin = binary();
    let mut c = Command::new(&bin);
    c.args(args.iter().map(|a| a.as_ref() as &OsStr)).current_dir(dir).stdin(Stdio::null());
    c.env_clear();
    if let Some(l) = log {
        c.env("RUST_LOG", l);
    }
    c.stdout(out).stderr(Stdio::piped());
    let fail = |e| format!("HARNESS: cannot run {bin:?}: {e}");
    let child = c.spawn().map_err(fail)?;
    let lim = libc::rlimit { rlim_cur: 60, rlim_max: 60 };
    unsafe { libc::prlimit(child.id() as libc::pid_t, libc::RLIMIT_CPU, &lim, std::ptr::null_mut()) };
    let o = child.wait_with_output().map_err(fail)?;
    Ok(Output { code: o.status.code(), stdout: o.stdout, stderr: String::from_utf8_lossy(&o.stderr).into_owned() })
}

/// Remove terminal colour sequences
pub fn plain(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' && it.peek() == Some(&'[') {
            it.next();
            for c in it.by_ref() {
                if ('@'..='~').contains(&c) {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// How a character looks
#[derive(Clone, Debug, Default, Eq, PartialEq)]
pub struct Style {
    fg: Vec<u32>,
    bg: Vec<u32>,
    attrs: std::collections::BTreeSet<u32>,
}

impl Style {
    fn apply(&mut self, p: &[u32]) {
        let mut i = 0;
        while i < p.len() {
            let n = match p[i] {
                38 | 48 => match p.get(i + 1) {
                    Some(5) => 3,
                    Some(2) => 5,
                    _ => 1,
                },
                _ => 1,
            };
            let v = p[i..(i + n).min(p.len())].to_vec();
            match p[i] {
                0 => *self = Style::default(),
                // the same colours in two notations
                30..=37 => self.fg = vec![38, 5, p[i] - 30],
                90..=97 => self.fg = vec![38, 5, p[i] - 90 + 8],
                40..=47 => self.bg = vec![48, 5, p[i] - 40],
                100..=107 => self.bg = vec![48, 5, p[i] - 100 + 8],
                38 => self.fg = v,
                48 => self.bg = v,
                39 => self.fg.clear(),
                49 => self.bg.clear(),
                22 => self.attrs.retain(|a| *a > 2),
                n @ 23..=29 => drop(self.attrs.remove(&(n - 20))),
                n => drop(self.attrs.insert(n)),
            }
            i += n;
        }
    }
}

/// The characters with their styles, and the style at the end
pub fn styled(b: &[u8]) -> (Vec<(char, Style)>, Style) {
    let s = String::from_utf8_lossy(b);
    let mut style = Style::default();
    let mut o = vec![];
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' && it.peek() == Some(&'[') {
            it.next();
            let mut par = String::new();
            for c in it.by_ref() {
                if ('@'..='~').contains(&c) {
                    if c == 'm' {
                        let p: Vec<u32> = par.split(';').map(|p| p.parse().unwrap_or(0)).collect();
                        style.apply(&p);
                    }
                    break;
                }
                par.push(c);
            }
        } else {
            o.push((c, style.clone()));
        }
    }
    (o, style)
}
