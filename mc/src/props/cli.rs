//! Running the real binary
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn bin() -> PathBuf {
    PathBuf::from(std::env::var("MC_BIN").unwrap_or_else(|_| "/verif/mc/target/repo/debug/tiny-spice-rs".to_string()))
}

pub struct Ran {
    pub ok: bool,
    pub text: String,
}

/// Run it in a directory. Output goes to files so that nothing blocks on a pipe.
pub fn simulate(dir: &Path, args: &[&str]) -> Result<Ran, String> {
    let out = std::env::current_dir().map_err(|e| e.to_string())?.join("cli.out");
    let f = std::fs::File::create(&out).map_err(|e| e.to_string())?;
    let g = f.try_clone().map_err(|e| e.to_string())?;
    let mut ch = Command::new(bin())
        .args(args)
        .current_dir(dir)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(f)
        .stderr(g)
        .spawn()
        .map_err(|e| format!("{}: {}", bin().display(), e))?;
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = ch.try_wait().map_err(|e| e.to_string())? {
            break st;
        }
        if t0.elapsed() > Duration::from_secs(10) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("the simulator doesn't finish".to_string());
        }
        std::thread::sleep(Duration::from_micros(200));
    };
    let text = String::from_utf8_lossy(&std::fs::read(&out).map_err(|e| e.to_string())?).into_owned();
    Ok(Ran { ok: st.success(), text })
}

/// Every file and directory below `dir`, with contents
pub fn tree(dir: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn walk(base: &Path, d: &Path, t: &mut BTreeMap<String, Option<Vec<u8>>>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(base).map(|p| p.display().to_string()).unwrap_or_default();
            if p.is_dir() {
                t.insert(rel, None);
                walk(base, &p, t);
            } else {
                t.insert(rel, std::fs::read(&p).ok());
            }
        }
    }
    let mut t = BTreeMap::new();
    walk(dir, dir, &mut t);
    t
}

/// An error has been reported: a message, or the exit status
pub fn complains(r: &Ran) -> bool {
    let t = r.text.to_lowercase();
    !r.ok || t.contains("error") || t.contains("fatal") || t.contains("panic")
}

/// A library which makes chosen operations on files fail (`shim/faults.c`)
pub fn shim() -> PathBuf {
    PathBuf::from(std::env::var("MC_SHIM").unwrap_or_else(|_| "/verif/mc/target/faults.so".to_string()))
}

/// What is counted, and can fail: see `shim/faults.c`
#[derive(Clone, Default)]
pub struct Faults {
    pub write: &'static str,
    pub read: &'static str,
    pub plan: String,
}

/// Run it with the operations of the plan failing. Returns what it did as well, a letter per
/// operation.
pub fn faulty(dir: &Path, arg: &str, f: &Faults) -> Result<(Ran, String), String> {
    let cwd = std::env::current_dir().map_err(|e| e.to_string())?;
    let log = cwd.join("faults.log");
    std::fs::write(&log, "").map_err(|e| e.to_string())?;
    let mut ch = Command::new(bin());
    ch.arg(arg)
        .current_dir(dir)
        .env("RUST_BACKTRACE", "0")
        .env("LD_PRELOAD", shim())
        .env("MC_FAULT_LOG", &log)
        .env("MC_FAULT_W", f.write)
        .env("MC_FAULT_R", f.read)
        .env("MC_FAULTS", &f.plan)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let o = ch.output().map_err(|e| format!("{}: {}", bin().display(), e))?;
    let text = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    let done = std::fs::read_to_string(&log).map_err(|e| e.to_string())?;
    Ok((Ran { ok: o.status.success(), text }, done))
}
