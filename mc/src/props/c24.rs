//! C24 the waveform viewer
use super::util::*;
use crate::harness::*;
use crate::net::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
#[cfg(not(feature = "no_wavewriter"))]
use tiny_spice::wavewriter::WaveWriter;

pub fn def() -> PropDef {
    PropDef {
        id: "C24",
        run,
        rule: "every string up to a length over digits, '-', ',', blank and others as the expression, files of 1 to several columns and rows in directories of 0 to 4 files, every form of the command line, values of every size, waveforms written by the real writer and by whole simulations; the real viewer with a recording stand-in for matplotlib, against a reference reading of the expression",
        hang_s: 60,
    }
}

fn r8n() -> PathBuf {
    PathBuf::from(std::env::var("MC_R8N").unwrap_or_else(|_| "/repo/bin/r8n".to_string()))
}

/// A viewer which can be used again and again
struct Viewer {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}

impl Drop for Viewer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

type Curve = (Vec<f64>, Vec<f64>);

#[derive(Debug)]
struct Shown {
    status: String,
    plots: Option<Vec<Curve>>,
}

fn floats(t: &str) -> Vec<f64> {
    t.split(' ').filter(|w| !w.is_empty()).map(|w| w.parse().unwrap_or(f64::NAN)).collect()
}

impl Viewer {
    fn new() -> Result<Viewer, String> {
        let mut child = Command::new("python3")
            .args(["-B", "-c", include_str!("r8n_driver.py")])
            .arg(r8n())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .map_err(|e| format!("python3: {}", e))?;
        let tx = child.stdin.take().ok_or("no stdin")?;
        let rx = BufReader::new(child.stdout.take().ok_or("no stdout")?);
        Ok(Viewer { child, tx, rx })
    }

    fn show(&mut self, args: &[&str]) -> Result<Shown, String> {
        let mut job = String::new();
        for a in args {
            job += a;
            job.push('\x1f');
        }
        job.push('\n');
        self.tx.write_all(job.as_bytes()).and_then(|_| self.tx.flush()).map_err(|e| format!("the viewer is gone: {}", e))?;
        let mut s = Shown { status: String::new(), plots: None };
        let mut plots = vec![];
        loop {
            let mut l = String::new();
            if self.rx.read_line(&mut l).map_err(|e| e.to_string())? == 0 {
                return Err("the viewer ended".to_string());
            }
            let l = l.trim_end_matches('\n');
            if let Some(t) = l.strip_prefix("status ") {
                s.status = t.to_string();
            } else if let Some(t) = l.strip_prefix("plot ") {
                let (x, y) = t.split_once('|').ok_or("bad reply")?;
                plots.push((floats(x), floats(y)));
            } else if l == "shown" {
                s.plots = Some(std::mem::take(&mut plots));
            } else if l == "end" {
                return Ok(s);
            }
        }
    }
}

/// The columns of an expression, None if it isn't one
fn columns(e: &str) -> Option<(usize, Option<usize>)> {
    let col = |t: &str| -> Option<usize> {
        let t = t.trim();
        if t.is_empty() || !t.chars().all(|c| c.is_ascii_digit()) { None } else { t.parse().ok() }
    };
    let bits: Vec<&str> = e.split('-').collect();
    match bits.len() {
        1 => Some((col(bits[0])?, None)),
        2 => Some((col(bits[0])?, Some(col(bits[1])?))),
        _ => None,
    }
}

/// The data of a file: rows, column 0 is the time
type Data = Vec<Vec<f64>>;

fn expected(files: &[&Data], exprs: &str) -> Option<Vec<Curve>> {
    let mut v = vec![];
    for rows in files {
        for e in exprs.split(',') {
            let (a, b) = columns(e)?;
            let n = rows[0].len();
            if a >= n || b.is_some_and(|b| b >= n) {
                return None;
            }
            v.push((
                rows.iter().map(|r| r[0]).collect(),
                rows.iter().map(|r| b.map_or(r[a], |b| r[a] - r[b])).collect(),
            ));
        }
    }
    if v.is_empty() { None } else { Some(v) }
}

fn same(a: &Curve, b: &Curve) -> bool {
    let eq = |p: &[f64], q: &[f64]| p.len() == q.len() && p.iter().zip(q).all(|(x, y)| x == y || x.is_nan() && y.is_nan());
    eq(&a.0, &b.0) && eq(&a.1, &b.1)
}

/// Marks at the ends of the curves are fine, but nothing else that isn't asked for
fn check(s: &Shown, want: Option<&Vec<Curve>>) -> Result<(), String> {
    let Some(want) = want else {
        return if s.plots.is_some() || s.status == "0" {
            Err(format!("this can't be plotted, but it is: {:?}", s))
        } else {
            Ok(())
        };
    };
    if s.status != "0" {
        return Err(format!("not plotted: {}", s.status));
    }
    let Some(got) = &s.plots else {
        return Err("nothing is shown".to_string());
    };
    let mut left: Vec<&Curve> = want.iter().collect();
    for g in got {
        if let Some(k) = left.iter().position(|w| same(w, g)) {
            left.remove(k);
            continue;
        }
        let mark = |w: &Curve| -> bool {
            let k = w.0.len() - 1;
            same(g, &(vec![w.0[k]], vec![w.1[k]]))
        };
        if !want.iter().any(mark) {
            return Err(format!("plotted {:?}, which wasn't asked for; expected {:?}", g, want));
        }
    }
    if let Some(w) = left.first() {
        return Err(format!("{:?} is missing, plotted {:?}", w, got));
    }
    Ok(())
}

fn data(cols: usize, rows: usize, salt: usize) -> Data {
    (0..rows).map(|r| (0..cols).map(|k| if k == 0 { r as f64 * 0.5e-6 } else { (((r * 7 + k * 13 + salt * 5) % 23) as f64 - 11.0) / 8.0 + k as f64 * 100.0 }).collect()).collect()
}

/// Written the way the simulator does
#[cfg(feature = "no_wavewriter")]
fn write(path: &Path, d: &Data) -> Result<(), String> {
    let n = d[0].len() - 1;
    let names: Vec<String> = (0..n).map(|k| if k >= n - n / 3 { format!("i({})", k - (n - n / 3)) } else if k == 0 { "v(gnd)".to_string() } else { format!("v(X1.n{})", k) }).collect();
    let units: Vec<&str> = (0..n).map(|k| if k >= n - n / 3 { "A" } else { "V" }).collect();
    let mut t = format!("Time\t{}\ns\t{}\n", names.join("\t"), units.join("\t"));
    for row in d {
        t += &row.iter().map(|v| format!("{:e}", v)).collect::<Vec<_>>().join("\t");
        t += "\n";
    }
    std::fs::write(path, t).map_err(|e| e.to_string())
}

/// Written the way the simulator does
#[cfg(not(feature = "no_wavewriter"))]
fn write(path: &Path, d: &Data) -> Result<(), String> {
    let n = d[0].len() - 1;
    let lut: HashMap<usize, String> = (0..n).map(|k| (k, if k == 0 { "gnd".to_string() } else { format!("X1.n{}", k) })).collect();
    let mut w = WaveWriter::new(&path.display().to_string(), &lut).ok_or("no writer")?;
    w.header(n - n / 3, n / 3);
    for row in d {
        w.dump_vector(row[0], &row[1..]);
    }
    Ok(())
}

fn fresh(name: &str) -> Result<PathBuf, String> {
    let dir = std::env::current_dir().map_err(|e| e.to_string())?.join(name);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    Ok(dir)
}

struct World {
    viewer: Option<Viewer>,
    built: String,
    dir: PathBuf,
}

impl World {
    fn show(&mut self, args: &[&str]) -> Result<Shown, String> {
        if self.viewer.is_none() {
            self.viewer = Some(Viewer::new()?);
        }
        let r = self.viewer.as_mut().ok_or("no viewer")?.show(args);
        if r.is_err() {
            self.viewer = None;
        }
        r
    }
    /// a directory with these files in it
    fn place(&mut self, what: &str, files: &[(String, Data)]) -> Result<String, String> {
        if self.built != what {
            self.dir = fresh("shelf")?;
            for (name, d) in files {
                write(&self.dir.join(name), d)?;
            }
            self.built = what.to_string();
        }
        Ok(self.dir.display().to_string())
    }
}

fn strings(alphabet: &[char], len: usize, f: &mut dyn FnMut(&str)) {
    for n in 0..=len {
        tuples(n, alphabet.len(), &mut |t| {
            let s: String = t.iter().map(|k| alphabet[*k]).collect();
            f(&s);
        });
    }
}

fn run(cx: &mut Cx) {
    let mut w = World { viewer: None, built: String::new(), dir: PathBuf::new() };

    cx.family("all short expressions");
    let shelf = vec![("a.dat".to_string(), data(4, 3, 0))];
    let one: Vec<&Data> = shelf.iter().map(|f| &f.1).collect();
    strings(&['0', '1', '2', '3', '-', ',', ' '], cx.by(5, 6), &mut |e| {
        cx.case(&|| format!("-expr '{}', a file with 4 columns", e), &mut |c| {
            let dir = w.place("one", &shelf)?;
            let s = w.show(&["-expr", e, &dir])?;
            c.step();
            c.validated();
            let want = expected(&one, e);
            c.saw(&(want.is_some(), e.len(), &s.status));
            check(&s, want.as_ref())
        });
    });
    cx.family("short expressions with other characters");
    strings(&['1', '2', '-', ',', 'v', '(', '.', '\t', '/', ':', '*'], cx.by(4, 5), &mut |e| {
        // what python makes of a name of a file isn't the question
        cx.case(&|| format!("-expr '{}', a file with 4 columns", e), &mut |c| {
            let dir = w.place("one", &shelf)?;
            let s = w.show(&[&dir, "-expr", e])?;
            c.step();
            c.validated();
            let want = expected(&one, e);
            c.saw(&(want.is_some(), e.len(), &s.status));
            check(&s, want.as_ref())
        });
    });

    cx.family("every column and difference of files of every shape");
    let top = cx.by(12, 16);
    for cols in 2..=top {
        for rows in [1usize, 2, 3, 10] {
            let shelf = vec![("tran.dat".to_string(), data(cols, rows, cols))];
            let one: Vec<&Data> = shelf.iter().map(|f| &f.1).collect();
            let mut list: Vec<String> = vec![];
            for a in 0..=cols {
                list.push(format!("{}", a));
                for b in 0..=cols {
                    list.push(format!("{}-{}", a, b));
                    list.push(format!("{}, {} - {}", b, a, b));
                }
            }
            for e in &list {
                cx.case(&|| format!("-expr '{}', {} columns, {} rows", e, cols, rows), &mut |c| {
                    let dir = w.place(&format!("{}x{}", cols, rows), &shelf)?;
                    let s = w.show(&["-expr", e, &dir])?;
                    c.steps(rows);
                    c.validated();
                    let want = expected(&one, e);
                    c.saw(&(cols, rows, e));
                    check(&s, want.as_ref())
                });
            }
        }
    }

    cx.family("lists of expressions of every length");
    for n in 1..=cx.by(24, 64) {
        for shift in 0..3 {
            let e: Vec<String> = (0..n).map(|k| if (k + shift) % 3 == 0 { format!("{}", k % 6) } else { format!("{}-{}", (k * 5) % 6, (k + shift) % 6) }).collect();
            let e = e.join([",", ", ", " , "][shift]);
            let shelf: Vec<(String, Data)> = (0..2).map(|k| (format!("f{}.dat", k), data(6, 4, k))).collect();
            let all: Vec<&Data> = shelf.iter().map(|f| &f.1).collect();
            cx.case(&|| format!("-expr '{}', 2 files", e), &mut |c| {
                let dir = w.place("two", &shelf)?;
                let s = w.show(&["-expr", &e, &dir])?;
                c.steps(n);
                c.validated();
                c.saw(&e);
                check(&s, expected(&all, &e).as_ref())
            });
        }
    }

    cx.family("every directory of up to 4 files, every form of the command line");
    let names = ["a.dat", "b.dat", "tran.dat", "Z9.dat", "notes.txt", "a.dat.bak", "dat", "b.data"];
    for len in 0..=4usize {
        multisets(len, names.len(), &mut |pick| {
            if pick.windows(2).any(|p| p[0] == p[1]) {
                return;
            }
            for form in 0..8 {
                cx.case(&|| format!("{:?}, form {}", pick.iter().map(|k| names[*k]).collect::<Vec<_>>(), form), &mut |c| {
                    let dir = fresh("every")?;
                    let mut files = vec![];
                    for k in pick {
                        // the ones which aren't waveforms could be anything
                        let d = data(3 + k % 2, 2 + k, *k);
                        write(&dir.join(names[*k]), &d)?;
                        if names[*k].ends_with(".dat") {
                            files.push(d);
                        }
                    }
                    let files: Vec<&Data> = files.iter().collect();
                    let d = dir.display().to_string();
                    let slash = format!("{}/", d);
                    let none = format!("{}/nothing", d);
                    let (args, want): (Vec<&str>, Option<Vec<Curve>>) = match form {
                        0 => (vec![&d], expected(&files, "2")),
                        1 => (vec!["-expr", "1", &d], expected(&files, "1")),
                        2 => (vec![&d, "-expr", "2-1,1"], expected(&files, "2-1,1")),
                        3 => (vec![&slash, "-expr", "0"], expected(&files, "0")),
                        4 => (vec![&d, "-expr"], None),
                        5 => (vec![&none], None),
                        6 => (vec!["-expr", "1"], None),
                        _ => (vec![], None),
                    };
                    let s = w.show(&args)?;
                    c.step();
                    c.validated();
                    c.saw(&(form, pick.len(), &s.status));
                    check(&s, want.as_ref())
                });
            }
        });
    }

    cx.family("values of every size");
    let mut vals = vec![0.0, -0.0, f64::MIN_POSITIVE, f64::MAX, -f64::MAX, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.1 + 0.2, 1.0 / 3.0];
    for k in -300..=300 {
        for m in [1.0, -7.123456789012345, 9.999999999999999] {
            vals.push(m * 10f64.powi(k));
        }
    }
    for (k, v) in vals.iter().enumerate() {
        cx.case(&|| format!("{:e}", v), &mut |c| {
            let d = vec![vec![*v, 1.0, *v, -2.5], vec![k as f64, *v, 3.0, *v]];
            let shelf = vec![("v.dat".to_string(), d)];
            let all: Vec<&Data> = shelf.iter().map(|f| &f.1).collect();
            let dir = w.place(&format!("v{}", k), &shelf)?;
            c.validated();
            for e in ["1", "2", "2-1,1-2", "3-2"] {
                let s = w.show(&["-expr", e, &dir])?;
                c.step();
                check(&s, expected(&all, e).as_ref()).map_err(|m| format!("-expr {}: {}", e, m))?;
            }
            c.saw(&v.to_bits());
            Ok(())
        });
    }

    cx.family("files with many rows and columns");
    for (cols, rows) in [(3usize, 1000usize), (3, 5000), (3, 70_000), (4, cx.by(100_001, 400_003)), (300, 3), (1100, 2), (40, 4100)] {
        cx.case(&|| format!("{} columns, {} rows", cols, rows), &mut |c| {
            let shelf = vec![("big.dat".to_string(), data(cols, rows, 1))];
            let all: Vec<&Data> = shelf.iter().map(|f| &f.1).collect();
            let dir = w.place(&format!("{}x{}", cols, rows), &shelf)?;
            c.validated();
            let e = format!("{}, {}-1, {}", cols - 1, cols - 1, cols / 2);
            let s = w.show(&["-expr", &e, &dir])?;
            c.steps(rows);
            c.saw(&(cols, rows));
            check(&s, expected(&all, &e).as_ref())
        });
    }

    cx.family("files of every number of rows");
    for rows in 1..=cx.deep(130, 400, 1500) {
        for again in 0..2 {
            cx.case(&|| format!("{} rows, {}", rows, ["all different", "the same ones again and again"][again]), &mut |c| {
                let mut d = data(4, rows, 3);
                if again == 1 {
                    for r in 1..rows {
                        d[r] = d[r - 1 - (r - 1) % 3].clone();
                    }
                }
                let shelf = vec![("rows.dat".to_string(), d)];
                let all: Vec<&Data> = shelf.iter().map(|f| &f.1).collect();
                let dir = w.place(&format!("rows{} {}", rows, again), &shelf)?;
                c.validated();
                let s = w.show(&["-expr", "3-1,2", &dir])?;
                c.steps(rows);
                c.saw(&(rows, again));
                check(&s, expected(&all, "3-1,2").as_ref())
            });
        }
    }

    cx.family("directories with many files");
    let mut ns: Vec<usize> = (5..=cx.deep(40, 70, 140)).collect();
    ns.extend([100, 129, 257, cx.by(300, 1025)]);
    for n in ns {
        for e in ["2", "1,3-2"] {
            cx.case(&|| format!("{} files, -expr {}", n, e), &mut |c| {
                let shelf: Vec<(String, Data)> = (0..n).map(|k| (format!("f{}.dat", (k * 7) % n.max(8)), k)).collect::<std::collections::BTreeMap<_, _>>().into_iter().map(|(f, k)| (f, data(4, 2 + k % 5, k * 3 + 1).into_iter().map(|mut r| { r[1] += k as f64; r[2] -= 1e3 * k as f64; r }).collect())).collect();
                let all: Vec<&Data> = shelf.iter().map(|f| &f.1).collect();
                let dir = w.place(&format!("{} files", n), &shelf)?;
                let s = w.show(&["-expr", e, &dir])?;
                c.steps(shelf.len());
                c.validated();
                c.saw(&(n, e));
                check(&s, expected(&all, e).as_ref())
            });
        }
    }

    cx.family("simulated, then viewed");
    let decks = [
        "t\nV1 a 0 SIN(0 5 1e6)\nR1 a b 1k\nC1 b 0 10p\n",
        "t\nV1 a 0 SIN(0 5 1e6)\nD1 a b\nR1 b 0 1k\nC1 b 0 100p\n",
        "t\nI1 0 a SIN(0 1m 1e6)\nX1 a b s\nR2 b 0 3k\n.subckt s p q\nR1 p m 1k\nR2 m q 2k\nC1 m 0 1p\n.ends\n",
    ];
    for (k, text) in decks.iter().enumerate() {
        for ask in ["", "1-2", "2,3", "0", "1 - 3"] {
            cx.case(&|| format!("-expr '{}'\n{}", ask, text), &mut |c| {
                use tiny_spice::analysis::Kind;
                let dir = fresh("sim")?;
                let (ckt, mut cfg) = read_deck(text)?;
                cfg.kind = Some(Kind::Transient);
                cfg.TSTEP = 1e-8;
                cfg.TSTOP = 1e-6;
                let file = dir.join("tran.dat");
                cfg.set_wavefile(&file.display().to_string());
                let st = guard(|| tiny_spice::engine::Engine::new().go(&ckt, &cfg)).map_err(|e| format!("panic: {}", e))?;
                st.ok_or("no analysis")?;
                let wave = crate::wave::load(&file)?;
                let d: Data = wave.rows.iter().map(|r| std::iter::once(r.0).chain(r.1.iter().copied()).collect()).collect();
                let dirname = dir.display().to_string();
                let (e, args): (&str, Vec<&str>) = if ask.is_empty() { ("2", vec![&dirname]) } else { (ask, vec!["-expr", ask, &dirname]) };
                let s = w.show(&args)?;
                c.steps(d.len());
                c.validated();
                c.saw(&(k, ask));
                check(&s, expected(&[&d], e).as_ref())
            });
        }
    }
}
