//! C17 the command line: which analysis, which files
use super::c03::{check_named, tran_cfg};
use super::cli::*;
use super::util::*;
use crate::harness::*;
use crate::net::El::*;
use crate::net::*;
use crate::wave;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub fn def() -> PropDef {
    PropDef {
        id: "C17",
        run,
        rule: "every (current directory, form of the path, deck) and every sequence of runs and deck edits up to a depth, with the real binary in a scratch directory; the tree of files before and after every run is compared with a model which maps each deck to the one file it may write, and the contents with the circuit equations; and every system call that opens or reads the deck or a library failing, interrupted or giving less than asked for, by a fault injector under the binary",
        hang_s: 60,
    }
}

type Tree = BTreeMap<String, Option<Vec<u8>>>;

/// What a deck asks for
#[derive(Clone)]
pub enum Asks {
    Tran(Vec<El>, f64, f64, f64),
    Nothing,
    /// no simulation, and an error
    Bad,
}

#[derive(Clone)]
pub struct Content {
    pub what: &'static str,
    pub text: String,
    pub asks: Asks,
}

fn rc(k: f64) -> Vec<El> {
    vec![Vs(1, 0, [0.5, k, 0.11]), R(1, 2, k), C(2, 0, 1.0)]
}

pub fn contents() -> Vec<Content> {
    let a = rc(1.0);
    let b = vec![Vp(1, 0, PwlSpec { pat: vec![(0.0, 0.0), (1.0, 2.0), (3.0, -1.0)], td: 0.5, rep: true }), R(1, 2, 3.0), C(2, 3, 1.0), R(3, 0, 1.0), V(4, 0, 1.0), R(4, 3, 2.0)];
    let d = vec![Vs(1, 0, [0.0, 3.0, 0.07]), R(1, 2, 1.0), D(2, 3, 1e-9), R(3, 0, 10.0), C(3, 0, 0.5)];
    let plain = deck(&a, "");
    let mut v = vec![
        Content { what: "tran", text: deck(&a, "tran 0.5 10"), asks: Asks::Tran(a.clone(), 0.5, 10.0, 0.0) },
        Content { what: "longer tran", text: deck(&b, "tran 0.1 20"), asks: Asks::Tran(b.clone(), 0.1, 20.0, 0.0) },
        Content { what: "shorter tran", text: deck(&rc(2.0), "tran 1 2"), asks: Asks::Tran(rc(2.0), 1.0, 2.0, 0.0) },
        Content { what: "diode", text: deck(&d, "tran 0.5 10"), asks: Asks::Tran(d.clone(), 0.5, 10.0, 0.0) },
        Content { what: "op", text: deck(&a, "op"), asks: Asks::Nothing },
        Content { what: "no analysis", text: plain.clone(), asks: Asks::Nothing },
        Content { what: "empty control block", text: format!("{}.control\n.endc\n", plain), asks: Asks::Nothing },
        Content { what: "option only", text: deck(&a, "option RELTOL = 1e-5"), asks: Asks::Nothing },
        Content { what: "tran then op", text: deck(&a, "tran 0.5 10\nop"), asks: Asks::Nothing },
        Content { what: "op then tran", text: deck(&a, "op\ntran 0.5 10"), asks: Asks::Tran(a.clone(), 0.5, 10.0, 0.0) },
        Content { what: "tran in a comment", text: deck(&a, "* tran 0.5 10\nop ; tran 0.5 10"), asks: Asks::Nothing },
        Content { what: "control first", text: format!("title\n.control\ntran 0.5 10\n.endc\n{}", plain.split_once('\n').map_or("", |x| x.1)), asks: Asks::Tran(a.clone(), 0.5, 10.0, 0.0) },
        Content { what: "two control blocks", text: format!("{}.control\nop\n.endc\n.control\ntran 0.5 10\n.endc\n", plain), asks: Asks::Tran(a.clone(), 0.5, 10.0, 0.0) },
        Content { what: "bad element", text: deck(&a, "tran 0.5 10").replace("C2 n2 0", "C2 n2"), asks: Asks::Bad },
        Content { what: "bad number", text: deck(&a, "tran 0.5 10").replace("tran 0.5", "tran x"), asks: Asks::Bad },
    ];
    let lib_els = vec![Vs(1, 0, [0.5, 1.0, 0.11]), R(1, 2, 1.0), C(2, 0, 1.0)];
    for (what, at_end) in [("library then control", false), ("control then library", true)] {
        let lib = ".lib parts.lib rc\n";
        let ctl = ".control\ntran 0.5 10\n.endc\n";
        let mut t = String::from("title\n");
        t += &lib_els[0].card(0, &node_name);
        t += "\n";
        t += &if at_end { format!("{}{}", ctl, lib) } else { format!("{}{}", lib, ctl) };
        v.push(Content { what, text: t, asks: Asks::Tran(lib_els.clone(), 0.5, 10.0, 0.0) });
    }
    v
}

pub const LIB: &str = "parts\n.lib rc\nR1 n1 n2 1\nC2 n2 0 1\n.endl\n";

/// Where a path leads, for paths under the current directory that only use `.` and `..` inside
fn normal(p: &str) -> Option<String> {
    if p.starts_with('/') {
        return None;
    }
    let mut o: Vec<&str> = vec![];
    for b in p.split('/') {
        match b {
            "" | "." => {}
            ".." => {
                o.pop()?;
            }
            b => o.push(b),
        }
    }
    Some(o.join("/"))
}

struct World {
    root: PathBuf,
    /// deck at each place, relative to the root
    decks: BTreeMap<String, Content>,
    model: Tree,
}

impl World {
    fn new(dirs: &[&str], libs: &[&str]) -> Result<World, String> {
        let root = std::env::current_dir().map_err(|e| e.to_string())?.join("world");
        let _ = std::fs::remove_dir_all(&root);
        for d in dirs {
            std::fs::create_dir_all(root.join(d)).map_err(|e| e.to_string())?;
        }
        for l in libs {
            std::fs::write(root.join(l), LIB).map_err(|e| e.to_string())?;
        }
        let model = tree(&root);
        Ok(World { root, decks: BTreeMap::new(), model })
    }
    fn put(&mut self, at: &str, what: &Content) -> Result<(), String> {
        std::fs::write(self.root.join(at), &what.text).map_err(|e| e.to_string())?;
        self.decks.insert(at.to_string(), what.clone());
        self.model.insert(at.to_string(), Some(what.text.clone().into_bytes()));
        Ok(())
    }
    /// Run on a deck and compare everything with the model
    fn run(&mut self, cwd: &str, arg: &str, at: &str, vt: f64, c: &mut Case) -> Result<(), String> {
        let r = simulate(&self.root.join(cwd), &[arg])?;
        c.validated();
        c.step();
        let now = tree(&self.root);
        let what = self.decks.get(at).cloned();
        let under = |d: &str| if cwd.is_empty() { d.to_string() } else { format!("{}/{}", cwd, d) };
        let waves = under("waves");
        let tell = |m: String| Err(format!("in '{}' on '{}': {}\n{}", cwd, arg, m, r.text));

        for (p, v) in &self.model {
            if !p.starts_with(&format!("{}/", waves)) && now.get(p) != Some(v) {
                return tell(format!("{} has been changed", p));
            }
        }
        let changed: Vec<&String> = now.iter().filter(|(p, v)| self.model.get(*p) != Some(*v)).map(|x| x.0).collect();
        let gone: Vec<&String> = self.model.keys().filter(|p| !now.contains_key(*p)).collect();
        if !gone.is_empty() {
            return tell(format!("{:?} disappeared", gone));
        }
        match what.map(|w| w.asks) {
            Some(Asks::Nothing) => {
                if !r.ok {
                    return tell("failed".to_string());
                }
                if !changed.is_empty() {
                    return tell(format!("wrote {:?}", changed));
                }
            }
            Some(Asks::Bad) | None => {
                if !complains(&r) {
                    return tell("no error".to_string());
                }
                if !changed.is_empty() {
                    return tell(format!("wrote {:?}", changed));
                }
            }
            Some(Asks::Tran(els, step, stop, start)) => {
                if !r.ok {
                    return tell("failed".to_string());
                }
                // the file, and the directories it is in
                let files: Vec<&String> = now
                    .iter()
                    .filter(|(p, v)| v.is_some() && p.starts_with(&format!("{}/", waves)) && self.model.get(*p) != Some(*v))
                    .map(|x| x.0)
                    .collect();
                let want = match normal(arg) {
                    Some(n) => {
                        let w = under(&format!("waves/{}/tran.dat", n));
                        if now.get(&w).is_none() {
                            return tell(format!("no {}; wrote {:?}", w, changed));
                        }
                        w
                    }
                    None if files.len() == 1 => files[0].clone(),
                    // written before by the same run, or not at all
                    None => {
                        let base = Path::new(at).file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
                        let hit: Vec<&String> = now.keys().filter(|p| p.starts_with(&waves) && p.ends_with(&format!("/{}/tran.dat", base))).collect();
                        if files.is_empty() && hit.len() == 1 {
                            hit[0].clone()
                        } else {
                            return tell(format!("wrote {:?}", files));
                        }
                    }
                };
                if !want.ends_with("/tran.dat") || !want.contains(Path::new(at).file_name().and_then(|n| n.to_str()).unwrap_or("?")) {
                    return tell(format!("wrote {}", want));
                }
                for p in &changed {
                    let ok = **p == want || (now[*p].is_none() && want.starts_with(&format!("{}/", p)));
                    if !ok {
                        return tell(format!("wrote {} as well as {}", p, want));
                    }
                }
                let text = String::from_utf8(now[&want].clone().unwrap_or_default()).map_err(|e| e.to_string())?;
                let w = wave::parse(&text)?;
                let cf = tran_cfg(step, stop, start);
                let (ckt, _) = read_deck(&deck(&els, ""))?;
                if let Err(m) = check_named(&els, &ckt, &w, &cf, vt, c) {
                    return tell(m);
                }
                c.saw(&fnv(&text));
            }
        }
        self.model = now;
        Ok(())
    }
}

fn run(cx: &mut Cx) {
    let vt = impl_vt();
    let cs = contents();
    let dirs = ["", "a", "a/b", "a b", "w.d", "waves"];

    cx.family("every kind of deck in every place by every form of its path");
    let names = ["d.spi", "d", "d.e.spi", "sp ace.spi", ".hidden", "tran.dat", "\u{3bc}.spi", "-x.spi", "d.spi.spi", "X", "0"];
    let places = ["", "a/", "a/b/", "a b/", "w.d/"];
    for place in places {
        for name in names {
            let at = format!("{}{}", place, name);
            if at == "-x.spi" {
                continue;
            }
            for (ci, content) in cs.iter().enumerate() {
                if name != "d.spi" && !cx.thorough() && ci != 0 && ci != 4 && ci != 14 {
                    continue;
                }
                // cwd, argument
                let mut forms: Vec<(&str, String)> = vec![
                    ("", at.clone()),
                    ("", format!("./{}", at)),
                    ("", format!(".//./{}", at)),
                    ("", format!("a/../{}", at)),
                    ("", format!("a/b/../../{}", at)),
                    ("", format!("a/./b/.././../{}", at)),
                    ("", format!("/ABS/{}", at)),
                    ("", at.replace('/', "//")),
                    ("a", format!("../{}", at)),
                    ("a/b", format!("../../{}", at)),
                    ("a b", format!("/ABS/{}", at)),
                ];
                if let Some(rest) = at.strip_prefix("a/") {
                    forms.push(("a", rest.to_string()));
                    forms.push(("a", format!("b/../{}", rest)));
                    forms.push(("a", format!("../a/{}", rest)));
                }
                if let Some(rest) = at.strip_prefix("a/b/") {
                    forms.push(("a/b", rest.to_string()));
                    forms.push(("a/b", format!("../b/{}", rest)));
                }
                for (cwd, arg) in &forms {
                    cx.case(&|| format!("{} deck at {}, in '{}': tiny-spice-rs '{}'\n{}", content.what, at, cwd, arg, content.text), &mut |c| {
                        let mut w = World::new(&dirs[..5], &["parts.lib", "a/parts.lib", "a/b/parts.lib", "a b/parts.lib", "w.d/parts.lib"])?;
                        w.put(&at, content)?;
                        // a neighbour which has nothing to do with it
                        w.put("other.spi", &cs[1])?;
                        let arg = arg.replace("/ABS", &w.root.display().to_string());
                        w.run(cwd, &arg, &at, vt, c)?;
                        // and again
                        w.run(cwd, &arg, &at, vt, c)
                    });
                }
            }
        }
    }

    // a, b, . and .. in every order, through directories up to 4 deep
    let deep: Vec<String> = std::iter::once(String::new()).chain((1..=4usize).flat_map(|n| (0..1usize << n).map(move |m| (0..n).map(|k| if m >> k & 1 == 0 { "a" } else { "b" }).collect::<Vec<_>>().join("/")))).collect();
    let deep: Vec<&str> = deep.iter().map(String::as_str).collect();
    for len in 1..=cx.deep(6, 7, 8) {
        cx.family(&format!("every path of {} components", len));
        tuples(len, 4, &mut |ix| {
            let bits: Vec<&str> = ix.iter().map(|k| ["a", "b", ".", ".."][*k]).collect();
            let arg = format!("{}/d.spi", bits.join("/"));
            let mut depth = 0i32;
            for b in &bits {
                depth += match *b {
                    "." => 0,
                    ".." => -1,
                    _ => 1,
                };
                if !(0..=4).contains(&depth) {
                    return;
                }
            }
            let Some(at) = normal(&arg) else { return };
            cx.case(&|| format!("tiny-spice-rs {}", arg), &mut |c| {
                let mut w = World::new(&deep, &[])?;
                w.put(&at, &cs[2])?;
                w.run("", &arg, &at, vt, c)
            });
        });
    }

    cx.family("decks and directories that are links");
    // the link and what it goes to, the deck, the argument
    let links: [(&str, &str, &str, &str); 8] = [
        ("l.spi", "d.spi", "d.spi", "l.spi"),
        ("l.spi", "a/d.spi", "a/d.spi", "l.spi"),
        ("a/l.spi", "d.spi", "a/d.spi", "a/l.spi"),
        ("a/l.spi", "../d.spi", "d.spi", "a/l.spi"),
        ("l.spi", "a/b/d.spi", "a/b/d.spi", "./l.spi"),
        ("la", "a", "a/d.spi", "la/d.spi"),
        ("la", "a/b", "a/b/d.spi", "la/d.spi"),
        ("a/b/up", "..", "a/d.spi", "a/b/up/d.spi"),
    ];
    for (link, to, deck_at, arg) in links {
        for content in &cs {
            for absolute in [false, true] {
                cx.case(&|| format!("{} deck at {}, {} is a link to {}: tiny-spice-rs {}\n{}", content.what, deck_at, link, to, arg, content.text), &mut |c| {
                    // (the libraries are beside both)
                    let mut w = World::new(&["", "a", "a/b"], &["parts.lib", "a/parts.lib", "a/b/parts.lib"])?;
                    w.put(deck_at, content)?;
                    // where a link only goes when all links on the way are followed
                    w.put("other.spi", &cs[1])?;
                    let target = if absolute { w.root.join(link).parent().map_or(PathBuf::new(), |p| p.join(to)) } else { PathBuf::from(to) };
                    std::os::unix::fs::symlink(target, w.root.join(link)).map_err(|e| e.to_string())?;
                    let at = arg.trim_start_matches("./");
                    w.decks.insert(at.to_string(), content.clone());
                    w.model = tree(&w.root);
                    w.run("", arg, at, vt, c)?;
                    // the deck itself has a place of its own
                    w.run("", deck_at, deck_at, vt, c)?;
                    w.run("", arg, at, vt, c)
                });
            }
        }
    }

    cx.family("a subcircuit with the name of the deck");
    for name in ["d", "d.spi", "s", "a/d.spi", "a/b/d", "./d", "a/../d.spi", "/ABS/d.spi", "../a/d.spi"] {
        for depth in [1, 2] {
            let cwd = if name.starts_with("..") { "a" } else { "" };
            cx.case(&|| format!("'{}' in '{}', {} levels", name, cwd, depth), &mut |c| {
                let mut w = World::new(&["", "a", "a/b"], &[])?;
                let arg = name.replace("/ABS", &w.root.display().to_string());
                let at = match name {
                    "./d" => "d",
                    "a/../d.spi" | "/ABS/d.spi" => "d.spi",
                    "../a/d.spi" => "a/d.spi",
                    n => n,
                };
                let els = rc(1.0);
                let subs = if depth == 1 {
                    format!(".subckt {} p q\nR1 p q 1\nC2 q 0 1\n.ends\n", arg)
                } else {
                    format!(".subckt {} p q\nX1 p q zz\n.ends\n.subckt zz p q\nR1 p q 1\nC2 q 0 1\n.ends\n", arg)
                };
                let text = format!("title\n{}\nX1 n1 n2 {}\n{}.control\ntran 0.5 10\n.endc\n", els[0].card(0, &node_name), arg, subs);
                w.put(at, &Content { what: "", text, asks: Asks::Tran(els, 0.5, 10.0, 0.0) })?;
                w.run(cwd, &arg, at, vt, c)
            });
        }
    }

    cx.family("all sequences of runs and edits");
    // place, cwd, argument
    let ats = [("d.spi", "", "d.spi"), ("e.spi", "", "e.spi"), ("a/d.spi", "", "a/d.spi"), ("a/b/d.spi", "", "a/b/d.spi"), ("d.spi", "", "a/../d.spi"), ("a/d.spi", "a", "d.spi"), ("a/b/d.spi", "a", "b/d.spi")];
    let edits = [0usize, 1, 2, 4, 13];
    // run one of them, or put other contents into one of the first three and run it
    let n_ops = ats.len() + 3 * edits.len();
    let places = ["d.spi", "e.spi", "a/d.spi", "a/b/d.spi"];
    for len in 1..=cx.by(3, 4) {
        tuples(len, n_ops, &mut |ix| {
            let name = |k: usize| {
                if k < ats.len() {
                    format!("run '{}' in '{}'", ats[k].2, ats[k].1)
                } else {
                    let (p, e) = ((k - ats.len()) / edits.len(), (k - ats.len()) % edits.len());
                    format!("write a {} deck to {} and run it", cs[edits[e]].what, places[p])
                }
            };
            cx.case(&|| ix.iter().map(|k| name(*k)).collect::<Vec<_>>().join("\n"), &mut |c| {
                let mut w = World::new(&["", "a", "a/b"], &[])?;
                for (k, p) in places.iter().enumerate() {
                    w.put(p, &cs[k])?;
                }
                for k in ix {
                    if *k < ats.len() {
                        let (at, cwd, arg) = ats[*k];
                        w.run(cwd, arg, at, vt, c)?;
                    } else {
                        let (p, e) = ((k - ats.len()) / edits.len(), (k - ats.len()) % edits.len());
                        w.put(places[p], &cs[edits[e]])?;
                        w.run("", places[p], places[p], vt, c)?;
                    }
                }
                Ok(())
            });
        });
    }

    cx.family("the deck and its libraries can't be read, or are read in pieces");
    for content in &cs {
        let world = || -> Result<PathBuf, String> {
            let mut w = World::new(&["", "a"], &[])?;
            w.put("a/d.spi", content)?;
            Ok(w.root)
        };
        let plan = |p: &str| Faults { write: "", read: ".spi:.lib", plan: p.to_string() };
        // how many operations there are
        let count = world().and_then(|root| faulty(&root, "a/d.spi", &plan(""))).map(|x| x.1).unwrap_or_default();
        let mut plans: Vec<(String, bool)> = vec![];
        for (l, n) in ['N', 'R'].map(|l| (l, count.chars().filter(|c| *c == l).count())) {
            for k in 1..=n {
                // I/O error, stale handle, no permission, out of memory
                plans.extend([5, 116, 13, 12].map(|e| (format!("{}{}={}", l, k, e), false)));
                plans.push((format!("{}{}=4", l, k), true));
                if l == 'R' {
                    plans.extend(["s1", "s2", "s7", "s50", "h"].map(|p| (format!("R{}={}", k, p), true)));
                    plans.extend(["s1", "s7", "s50", "h"].map(|p| (format!("R{}={} R{}=4", k, p, k + 1), true)));
                    plans.extend(["s1", "s7", "s50", "h"].map(|p| (format!("R{}={} R{}=5", k, p, k + 1), false)));
                }
            }
        }
        for m in [1, 3, 16, 40] {
            let p: Vec<String> = (1..=1000).map(|k| format!("R{}=s{}", k, m)).collect();
            plans.push((p.join(" "), true));
            // up to an error
            for k in cx.by(vec![2, 4, 5, 6, 7, 10, 20], (2..60).collect()).into_iter().filter(|k| k * m <= content.text.len()) {
                let mut p = p[..k - 1].to_vec();
                p.push(format!("R{}=5", k));
                plans.push((p.join(" "), false));
            }
        }
        for (p, fine) in plans {
            cx.case(&|| format!("{} deck, {}\n{}", content.what, p.get(..60).unwrap_or(&p), content.text), &mut |c| {
                let root = world()?;
                let before = tree(&root);
                let (good, _) = faulty(&root, "a/d.spi", &plan(""))?;
                let clean = tree(&root);
                let root = world()?;
                let (r, done) = faulty(&root, "a/d.spi", &plan(&p))?;
                c.steps(done.len());
                c.validated();
                c.saw(&(&done, complains(&r), content.what));
                let now = tree(&root);
                // it may be over before it comes to that
                let reached = |x: &str| {
                    let (op, what) = x.split_once('=').unwrap_or((x, ""));
                    what.parse::<u32>().is_ok_and(|e| e != 4) && op[1..].parse().is_ok_and(|k: usize| done.chars().filter(|c| op.starts_with(*c)).count() >= k)
                };
                let fine = fine || !p.split(' ').any(reached);
                if fine && (complains(&r) != complains(&good) || now != clean) {
                    return Err(format!("not what comes of it when it's read in one piece\n{}", r.text));
                }
                if !fine && !complains(&r) {
                    return Err(format!("it couldn't be read, and no error is reported\n{}", r.text));
                }
                if !fine && now != before {
                    return Err(format!("it couldn't be read, and something is simulated\n{}", r.text));
                }
                Ok(())
            });
        }
    }

    cx.family("no such deck, a directory, no argument");
    for arg in ["nope.spi", "a", "a/nope.spi", "", ".", "a/b/../nope", "/nonexistent/d.spi"] {
        cx.case(&|| arg.to_string(), &mut |c| {
            let mut w = World::new(&["", "a", "a/b"], &[])?;
            w.put("d.spi", &cs[0])?;
            w.run("", arg, "nowhere", vt, c)
        });
    }
    cx.case(&|| "no argument".to_string(), &mut |c| {
        let w = World::new(&["", "a"], &[])?;
        let r = simulate(&w.root, &[])?;
        c.validated();
        c.step();
        if !complains(&r) || tree(&w.root) != w.model {
            return Err(r.text);
        }
        Ok(())
    });
}
