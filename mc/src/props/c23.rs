//! C23 waveforms that can't be written
use super::c17::{contents, Asks, Content};
use super::cli::*;
use crate::harness::*;
use std::collections::BTreeMap;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn def() -> PropDef {
    PropDef {
        id: "C23",
        run,
        rule: "every number of bytes the waveform file may grow to before the disk is full, from none to more than all, for each of a family of decks, on a new file and on one that is there already; every one and every two of the system calls on the file failing, being interrupted or doing less than asked for, by a fault injector under the binary, and working again afterwards; every kind of thing in the way at every component of the path of the file; the real binary must report an error exactly when rows are missing, and leave a beginning of the complete file and nothing else",
        hang_s: 60,
    }
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const Rlimit) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;
const SIG_IGN: usize = 1;

/// Run with a limit on the size of files. Output goes to pipes, which have no such limit.
fn limited(dir: &Path, arg: &str, limit: Option<u64>) -> Result<Ran, String> {
    let mut cmd = Command::new(bin());
    cmd.arg(arg).current_dir(dir).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if let Some(n) = limit {
        // only async-signal-safe calls in here
        unsafe {
            cmd.pre_exec(move || {
                signal(SIGXFSZ, SIG_IGN);
                let r = Rlimit { cur: n, max: n };
                if setrlimit(RLIMIT_FSIZE, &r) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
    }
    let o = cmd.output().map_err(|e| format!("{}: {}", bin().display(), e))?;
    let text = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    Ok(Ran { ok: o.status.success(), text })
}

fn world(content: &Content) -> Result<PathBuf, String> {
    let root = std::env::current_dir().map_err(|e| e.to_string())?.join("world");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(root.join("a")).map_err(|e| e.to_string())?;
    std::fs::write(root.join("a/d.spi"), &content.text).map_err(|e| e.to_string())?;
    std::fs::write(root.join("a/parts.lib"), super::c17::LIB).map_err(|e| e.to_string())?;
    Ok(root)
}

const FILE: &str = "waves/a/d.spi/tran.dat";

/// The complete waveforms, from a run in which nothing goes wrong
fn complete(content: &Content) -> Result<Vec<u8>, String> {
    let root = world(content)?;
    let r = limited(&root, "a/d.spi", None)?;
    if complains(&r) {
        return Err(format!("a run in which nothing goes wrong has an error\n{}", r.text));
    }
    std::fs::read(root.join(FILE)).map_err(|e| format!("{}: {}", FILE, e))
}

fn changes(before: &BTreeMap<String, Option<Vec<u8>>>, after: &BTreeMap<String, Option<Vec<u8>>>) -> Vec<String> {
    let mut v: Vec<String> = after.iter().filter(|(p, x)| before.get(*p) != Some(*x)).map(|x| x.0.clone()).collect();
    v.extend(before.keys().filter(|p| !after.contains_key(*p)).cloned());
    v.retain(|p| p != FILE && !FILE.starts_with(&format!("{}/", p)));
    v
}

fn run(cx: &mut Cx) {
    let cs: Vec<Content> = contents().into_iter().filter(|c| matches!(c.asks, Asks::Tran(..))).collect();

    cx.family("the disk is full after every number of bytes");
    let picks: Vec<usize> = if cx.thorough() { (0..cs.len()).collect() } else { vec![0, 2, 3] };
    for k in picks {
        let content = &cs[k];
        // only to know how far to count; each case finds out for itself what is right
        let Ok(size) = complete(content).map(|f| f.len()) else {
            cx.case(&|| format!("{} deck\n{}", content.what, content.text), &mut |_| complete(content).map(|_| ()));
            continue;
        };
        for old in 0..2 {
            for limit in 0..=size + 2 {
                cx.case(&|| format!("{} deck, full after {} of {} bytes{}\n{}", content.what, limit, size, if old > 0 { ", over an old file" } else { "" }, content.text), &mut |c| {
                    let full = complete(content)?;
                    let root = world(content)?;
                    if old > 0 {
                        std::fs::create_dir_all(root.join("waves/a/d.spi")).map_err(|e| e.to_string())?;
                        std::fs::write(root.join(FILE), "old\n".repeat(full.len())).map_err(|e| e.to_string())?;
                    }
                    let before = tree(&root);
                    let r = limited(&root, "a/d.spi", Some(limit as u64))?;
                    c.steps(full.len().min(limit));
                    c.validated();
                    let got = std::fs::read(root.join(FILE)).unwrap_or_default();
                    c.saw(&(got.len(), r.ok));
                    if !full.starts_with(&got) {
                        return Err(format!("what has been written isn't a beginning of the waveforms\n{}", String::from_utf8_lossy(&got)));
                    }
                    if got.len() < full.len() && !complains(&r) {
                        return Err(format!("just {} of {} bytes have been written, and no error is reported\n{}", got.len(), full.len(), r.text));
                    }
                    if limit >= full.len() && (complains(&r) || got.len() < full.len()) {
                        return Err(format!("there is space for everything, but {} of {} bytes have been written\n{}", got.len(), full.len(), r.text));
                    }
                    let ch = changes(&before, &tree(&root));
                    if !ch.is_empty() {
                        return Err(format!("changed {:?}", ch));
                    }
                    Ok(())
                });
            }
        }
    }

    run_faults(cx, &cs);

    cx.family("something is in the way at every component of the path");
    let all = contents();
    for content in &all {
        for part in ["waves", "waves/a", "waves/a/d.spi", FILE] {
            for obstacle in ["file", "dangling link", "link to /dev/full", "link to itself", "directory"] {
                cx.case(&|| format!("{} deck, {} is a {}\n{}", content.what, part, obstacle, content.text), &mut |c| {
                    let fine = obstacle == "directory" && part != FILE || obstacle == "file" && part == FILE;
                    let root = world(content)?;
                    let p = root.join(part);
                    if let Some(d) = p.parent() {
                        std::fs::create_dir_all(d).map_err(|e| e.to_string())?;
                    }
                    match obstacle {
                        "file" => std::fs::write(&p, "in the way\n"),
                        "directory" => std::fs::create_dir(&p),
                        "dangling link" => std::os::unix::fs::symlink(root.join("no/such"), &p),
                        "link to itself" => std::os::unix::fs::symlink(&p, &p),
                        _ => std::os::unix::fs::symlink("/dev/full", &p),
                    }
                    .map_err(|e| e.to_string())?;
                    let before = names(&root);
                    let r = limited(&root, "a/d.spi", Some(1 << 20))?;
                    c.step();
                    c.validated();
                    c.saw(&(complains(&r), r.ok));
                    let tran = matches!(content.asks, Asks::Tran(..));
                    let bad = matches!(content.asks, Asks::Bad);
                    if (bad || tran && !fine) && !complains(&r) {
                        return Err(format!("the waveforms can't be written, and no error is reported\n{}", r.text));
                    }
                    if !bad && (fine || !tran) && !r.ok {
                        return Err(format!("failed\n{}", r.text));
                    }
                    if tran && fine {
                        let got = std::fs::read(root.join(FILE)).map_err(|e| e.to_string())?;
                        if got != complete(content)? {
                            return Err("not the complete waveforms".to_string());
                        }
                        return Ok(());
                    }
                    // nothing may have appeared anywhere but on the way to the file
                    let root = std::env::current_dir().map_err(|e| e.to_string())?.join("world");
                    for p in names(&root) {
                        if !before.contains(&p) && p != FILE && !FILE.starts_with(&format!("{}/", p)) {
                            return Err(format!("wrote {}", p));
                        }
                    }
                    let deck = std::fs::read(root.join("a/d.spi")).map_err(|e| e.to_string())?;
                    if deck != content.text.as_bytes() {
                        return Err("the deck has been changed".to_string());
                    }
                    Ok(())
                });
            }
        }
    }
}

/// Linux error numbers
const EINTR: u32 = 4;
const ERRORS: [(u32, &str); 4] = [(28, "no space"), (5, "I/O error"), (122, "quota exceeded"), (13, "permission denied")];

/// Single operations on the file or on the directories on the way to it fail, once, or do less than
/// they were asked for. What is asked for next works again.
fn run_faults(cx: &mut Cx, cs: &[Content]) {
    let plan = |p: &str| Faults { write: "waves", read: "", plan: p.to_string() };
    let one = |content: &Content, p: &str, harmless: bool, old: bool, c: &mut Case| -> Result<(), String> {
        let full = complete(content)?;
        let root = world(content)?;
        if old {
            std::fs::create_dir_all(root.join("waves/a/d.spi")).map_err(|e| e.to_string())?;
            std::fs::write(root.join(FILE), "old\n".repeat(full.len())).map_err(|e| e.to_string())?;
        }
        let before = tree(&root);
        let (r, done) = faulty(&root, "a/d.spi", &plan(p))?;
        let got = std::fs::read(root.join(FILE)).unwrap_or_default();
        c.steps(done.len());
        c.validated();
        c.saw(&(got.len(), r.ok, &done));
        // nothing has been opened for writing, so this is still the old one
        let untouched = old && got.starts_with(b"old\n") && complains(&r) && !harmless;
        if !full.starts_with(&got) && !untouched {
            return Err(format!("what has been written isn't a beginning of the waveforms\n{}", String::from_utf8_lossy(&got)));
        }
        if got != full && !complains(&r) {
            return Err(format!("just {} of {} bytes have been written, and no error is reported\n{}", got.len(), full.len(), r.text));
        }
        if harmless && (complains(&r) || got != full) {
            return Err(format!("all could have been written, but {} of {} bytes have been\n{}", got.len(), full.len(), r.text));
        }
        let ch = changes(&before, &tree(&root));
        if !ch.is_empty() {
            return Err(format!("changed {:?}", ch));
        }
        Ok(())
    };

    for content in cs {
        // how many operations there are
        let count = world(content).and_then(|root| faulty(&root, "a/d.spi", &plan(""))).map(|x| x.1).unwrap_or_default();
        let n = |l: char| count.chars().filter(|c| *c == l).count();

        cx.family("one operation on the file fails");
        for (letter, what) in [('M', "making a directory"), ('O', "creating the file"), ('W', "writing")] {
            for k in 1..=n(letter) {
                for (errno, why) in ERRORS {
                    for old in [false, true] {
                        cx.case(&|| format!("{} deck, {} fails at the {}. time with '{}'{}\n{}", content.what, what, k, why, if old { ", over an old file" } else { "" }, content.text), &mut |c| {
                            one(content, &format!("{}{}={}", letter, k, errno), false, old, c)
                        });
                    }
                }
                if letter != 'M' {
                    cx.case(&|| format!("{} deck, {} is interrupted at the {}. time\n{}", content.what, what, k, content.text), &mut |c| {
                        one(content, &format!("{}{}={}", letter, k, EINTR), true, false, c)
                    });
                }
            }
        }
        cx.family("the system writes less than it was asked to");
        for k in 1..=n('W') {
            for part in ["s1", "s2", "s7", "h"] {
                cx.case(&|| format!("{} deck, only {} bytes written at the {}. time\n{}", content.what, part, k, content.text), &mut |c| {
                    one(content, &format!("W{}={}", k, part), true, false, c)
                });
                for (errno, why) in ERRORS {
                    cx.case(&|| format!("{} deck, only {} bytes written at the {}. time, then '{}'\n{}", content.what, part, k, why, content.text), &mut |c| {
                        one(content, &format!("W{}={} W{}={}", k, part, k + 1, errno), false, false, c)
                    });
                }
            }
        }
        cx.case(&|| format!("{} deck, always one byte\n{}", content.what, content.text), &mut |c| {
            let p: Vec<String> = (1..=3000).map(|k| format!("W{}=s1", k)).collect();
            one(content, &p.join(" "), true, false, c)
        });
        cx.family("two operations on the file fail");
        let far = cx.by(6, 1000);
        for i in 1..=n('W') {
            for j in (i + 1..=n('W') + 1).filter(|j| j - i <= far) {
                let kinds = [("28", false), ("5", false), ("4", true), ("s3", true), ("h", true)];
                for (a, fine) in kinds {
                    for (b, fine2) in kinds {
                        cx.case(&|| format!("{} deck, writing: {} at the {}. time, {} at the {}.\n{}", content.what, a, i, b, j, content.text), &mut |c| {
                            one(content, &format!("W{}={} W{}={}", i, a, j, b), fine && fine2, false, c)
                        });
                    }
                }
            }
        }
    }
}

/// Every name below a directory, without following links
fn names(root: &Path) -> Vec<String> {
    fn walk(base: &Path, d: &Path, v: &mut Vec<String>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            v.push(p.strip_prefix(base).map(|p| p.display().to_string()).unwrap_or_default());
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                walk(base, &p, v);
            }
        }
    }
    let mut v = vec![];
    walk(root, root, &mut v);
    v
}
