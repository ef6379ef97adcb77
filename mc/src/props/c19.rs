//! C19 library import
use super::util::*;
use crate::harness::*;
use crate::net::tuples;
use std::path::Path;
use tiny_spice::analysis::Configuration;
use tiny_spice::circuit::Circuit;
use tiny_spice::spice::Reader;

pub fn def() -> PropDef {
    PropDef {
        id: "C19",
        run,
        rule: "every library of up to 3 (thorough 4) blocks over an alphabet of sections and text between sections, and every import and pair of imports from it at every place in a deck; compared with the deck that has the section's lines written in place of the import; the library in the same directory, in another one and next to a decoy; missing files and sections",
        hang_s: 20,
    }
}

/// name of the section ("" for text outside) and its lines
const BLOCKS: &[(&str, &[&str])] = &[
    ("tt", &["Rt1 a b 1k", "V a 0 3"]),
    ("tt2", &["Rt2 a 0 2k ; .endl", "* .endl", "Ct2 a b 1u"]),
    ("TT", &[".subckt cell p q r=5", "Rc p m {r}", "Rd m q 7", ".ends", "Xc1 a 0 cell", "Xc2 b a cell r=9"]),
    ("t", &[]),
    ("ctl", &[".control", "tran 2u 50u", "option RMAX = 3", ".endc", "I1 0 b 1m"]),
    ("e", &["E1 c 0 a b 2", "G1 0 c a 0 1m", "Rc c 0 50", "D1 c b"]),
    ("", &["Rz1 a 0 666", "* .lib tt", "; .endl"]),
    ("", &["this is not SPICE", ".subckt zz", ".control", "Vz b 0 13"]),
    ("", &[".ends", ".endc", "X99 nothing", ".lib", ".lib tt x", ".lib x tt", "Rz2 a 0 667", ".lib l.lib TT", "Rz3 b 0 668", ".lib a b ctl", "Rz4 b 0 669", "lib e", ".library t", "Rz5 b 0 670"]),
];

fn lib_text(ix: &[usize], style: usize) -> String {
    let mut t = "library title\n".to_string();
    for k in ix {
        let (name, lines) = BLOCKS[*k];
        if name.is_empty() {
            t += &lines.join("\n");
            t += "\n";
        } else {
            t += &match style {
                0 => format!(".lib {}\n", name),
                1 => format!("  .lib\t{}  ; section\n", name),
                _ => format!("\n* next\n.lib {};\n\n", name),
            };
            t += &lines.join("\n");
            t += match style {
                0 => "\n.endl\n",
                1 => "\n\t.endl ; of section\n",
                _ => "\n\n* done\n.endl tt\n\n",
            };
        }
    }
    t
}

fn read(path: &str) -> Result<(Circuit, Configuration), String> {
    let r = guard(|| {
        let mut r = Reader::new();
        if r.read(Path::new(path)) {
            return Err("the reader reports errors".to_string());
        }
        Ok((r.get_expanded_circuit(), r.configuration().clone()))
    });
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    }
}

fn cfg_bits(c: &Configuration) -> String {
    format!("{:?}", (c.kind.as_ref().map(|k| format!("{}", k)), c.TSTEP, c.TSTOP, c.TSTART, c.RMAX, c.RELTOL, c.ABSTOL))
}

/// Deck with imports replaced by `f(section)`
fn deck_text(imports: &[&str], place: usize, f: &dyn Fn(&str) -> String) -> String {
    let a = "V1 a 0 5\nX0 a b top\n";
    let b = ".subckt top p q\nR1 p q 1k\nR2 q 0 1k\n.ends\nR3 b 0 4k\n.control\nop\n.endc\n";
    let mut parts = vec![String::new(); 3];
    for (k, i) in imports.iter().enumerate() {
        parts[(place + k) % 3] += &f(i);
    }
    format!("title\n{}{}{}{}{}", parts[0], a, parts[1], b, parts[2])
}

struct Layout {
    deck: &'static str,
    /// how the deck refers to the library
    name: &'static str,
    lib: &'static str,
    decoy: Option<&'static str>,
}

const LAYOUTS: &[Layout] = &[
    Layout { deck: "d.spi", name: "l.lib", lib: "l.lib", decoy: None },
    Layout { deck: "x/d.spi", name: "l.lib", lib: "x/l.lib", decoy: Some("l.lib") },
    Layout { deck: "x/d.spi", name: "sub/l.lib", lib: "x/sub/l.lib", decoy: Some("sub/l.lib") },
    Layout { deck: "x/d.spi", name: "../l.lib", lib: "l.lib", decoy: Some("x/l.lib") },
    Layout { deck: "./x/y/d.spi", name: "./models.inc", lib: "x/y/models.inc", decoy: Some("models.inc") },
];

fn put(path: &str, text: &str) -> Result<(), String> {
    let p = Path::new(path);
    if let Some(d) = p.parent() {
        std::fs::create_dir_all(d).map_err(|e| e.to_string())?;
    }
    std::fs::write(p, text).map_err(|e| e.to_string())
}

fn clean() {
    for d in ["x", "sub"] {
        let _ = std::fs::remove_dir_all(d);
    }
    for f in ["d.spi", "l.lib", "models.inc", "flat.spi"] {
        let _ = std::fs::remove_file(f);
    }
}

const DECOY: &str = "title\n.lib tt\nRdecoy a b 1\n.endl\n.lib tt2\nRdecoy a b 1\n.endl\n.lib TT\nRdecoy a b 1\n.endl\n.lib e\nRdecoy a b 1\n.endl\n.lib t\nRdecoy a b 1\n.endl\n.lib ctl\nRdecoy a b 1\n.endl\n";

fn check(ix: &[usize], imports: &[&str], place: usize, style: usize, lay: &Layout, c: &mut Case) -> Result<(), String> {
    clean();
    if let Some(d) = lay.decoy {
        put(d, DECOY)?;
    }
    put(lay.lib, &lib_text(ix, style))?;
    let present = |name: &str| ix.iter().any(|k| BLOCKS[*k].0 == name);
    put(lay.deck, &deck_text(imports, place, &|s| match style {
        0 => format!(".lib {} {}\n", lay.name, s),
        _ => format!("  .lib\t{}  {} ; import\n", lay.name, s),
    }))?;
    let got = read(lay.deck);
    c.step();
    if !imports.iter().all(|i| present(i)) {
        c.saw(&"missing");
        return match got {
            Err(_) => Ok(()),
            Ok(_) => Err("import of a section that isn't there goes unnoticed".to_string()),
        };
    }
    put("flat.spi", &deck_text(imports, place, &|s| {
        let k = ix.iter().find(|k| BLOCKS[**k].0 == s).expect("present");
        let t = BLOCKS[*k].1.join("\n");
        if t.is_empty() { t } else { t + "\n" }
    }))?;
    let want = read("flat.spi").map_err(|m| format!("the deck written out: {}", m))?;
    let got = got?;
    c.validated();
    let (g, w) = (element_texts(&got.0)?, element_texts(&want.0)?);
    c.steps(w.len());
    c.saw(&w);
    if g != w {
        return Err(format!("elements {:?}\nexpected {:?}", g, w));
    }
    if got.0.count_nodes() != want.0.count_nodes() || got.0.count_voltage_sources() != want.0.count_voltage_sources() {
        return Err("node or source counts differ".to_string());
    }
    if cfg_bits(&got.1) != cfg_bits(&want.1) {
        return Err(format!("configuration {}\nexpected {}", cfg_bits(&got.1), cfg_bits(&want.1)));
    }
    Ok(())
}

fn show(ix: &[usize], imports: &[&str], place: usize, style: usize, lay: &Layout) -> String {
    format!("{} imports {:?} (place {}, style {}) from {}:\n{}", lay.deck, imports, place, style, lay.lib, lib_text(ix, style))
}

fn run(cx: &mut Cx) {
    let names: Vec<&str> = vec!["tt", "tt2", "TT", "t", "ctl", "e"];
    for len in 1..=cx.deep(3, 4, 5) {
        cx.family(&format!("libraries of {} blocks, one import", len));
        tuples(len, BLOCKS.len(), &mut |ix| {
            // sections with the same name: not defined
            let mut secs: Vec<&str> = ix.iter().map(|k| BLOCKS[*k].0).filter(|n| !n.is_empty()).collect();
            secs.sort_unstable();
            let n = secs.len();
            secs.dedup();
            if n == 0 || secs.len() != n {
                return;
            }
            let k = ix.iter().fold(3usize, |a, b| a * 31 + b);
            for (q, name) in names.iter().enumerate() {
                for place in 0..3 {
                    for style in 0..3 {
                        for (li, lay) in LAYOUTS.iter().enumerate() {
                            if len > 2 && (style != k % 3 || li != (k + q) % LAYOUTS.len()) {
                                continue;
                            }
                            let imports = [*name];
                            cx.case(&|| show(ix, &imports, place, style, lay), &mut |c| check(ix, &imports, place, style, lay, c));
                        }
                    }
                }
            }
        });
        cx.family(&format!("libraries of {} blocks, two or three imports", len));
        tuples(len, 6, &mut |ix| {
            let mut u = ix.to_vec();
            u.sort_unstable();
            u.dedup();
            if u.len() != ix.len() || len < 2 {
                return;
            }
            for cnt in 2..=3.min(len) {
                tuples(cnt, len, &mut |im| {
                    let mut u = im.to_vec();
                    u.sort_unstable();
                    u.dedup();
                    if u.len() != im.len() {
                        return;
                    }
                    let imports: Vec<&str> = im.iter().map(|k| BLOCKS[ix[*k]].0).collect();
                    for place in 0..3 {
                        let lay = &LAYOUTS[(place + ix[0]) % LAYOUTS.len()];
                        cx.case(&|| show(ix, &imports, place, place, lay), &mut |c| check(ix, &imports, place, place, lay, c));
                    }
                });
            }
        });
    }

    cx.family("imports in a subcircuit, with local nodes");
    for (k, lines) in [(0usize, "Rt1 a b 1k\nRx b k 5"), (1, "C1 a k 1u"), (2, "E1 k 0 a b 3\nG1 a b k 0 2")] {
        for (place, others) in (0..3).flat_map(|p| (0..8).map(move |o| (p, o))) {
            let body = ["R1 a k 1", "R2 k b 2"];
            // other subcircuits before it, and one after it
            let t = |mid: &str| {
                let mut b = vec![body[0].to_string(), body[1].to_string()];
                b.insert(place, mid.to_string());
                let more: String = (0..others).map(|o| format!(".subckt o{} k b\nR1 k b {}\n.ends\n", o, o + 1)).collect();
                format!("t\nV1 p 0 1\nX1 p q s\nX2 q 0 s\nX3 q p z\n{}.subckt s a b\n{}\n.ends\n.subckt z a b\nR1 a b 77\n.ends\nR9 p q 3\n", more, b.join("\n"))
            };
            cx.case(&|| t(".lib l.lib m"), &mut |c| {
                clean();
                put("l.lib", &format!("t\n.lib n\nR7 a b 1\n.endl\n.lib m\n{}\n.endl\n", lines))?;
                put("d.spi", &t(".lib l.lib m"))?;
                put("flat.spi", &t(lines))?;
                let (g, w) = (read("d.spi")?, read("flat.spi")?);
                c.steps(2);
                c.validated();
                c.saw(&(k, place, others));
                let (g, w) = (element_texts(&g.0)?, element_texts(&w.0)?);
                if g != w {
                    return Err(format!("elements {:?}\nexpected {:?}", g, w));
                }
                Ok(())
            });
        }
    }

    cx.family("libraries with many sections and long ones");
    for secs in [1usize, 2, 3, 7, 10, 11, 31, 64, 100, 257] {
        for lines in [0usize, 1, 2, 10, 65, 257, 1025] {
            if secs * lines > cx.deep(30_000, 120_000, 1_000_000) {
                continue;
            }
            let sec = |k: usize| (0..lines).map(|l| format!("R{}_{} a b {}\n", k, l, 1 + k * 2000 + l)).collect::<String>();
            let mut pick = vec![0, 1, 2, 9, 10, 30, 63, 64, 99, secs / 2, secs.saturating_sub(2), secs - 1];
            pick.retain(|k| *k < secs);
            pick.sort_unstable();
            pick.dedup();
            for k in pick {
                cx.case(&|| format!("section s{} of {} sections of {} lines", k, secs, lines), &mut |c| {
                    clean();
                    let mut lib = "t\n".to_string();
                    for s in 0..secs {
                        lib += &format!(".lib s{}\n{}.endl\n", s, sec(s));
                    }
                    put("l.lib", &lib)?;
                    let t = |mid: &str| format!("t\nV1 a 0 1\n{}R0 b 0 1\n", mid);
                    put("d.spi", &t(&format!(".lib l.lib s{}\n", k)))?;
                    put("flat.spi", &t(&sec(k)))?;
                    let (g, w) = (read("d.spi")?, read("flat.spi")?);
                    c.steps(lines);
                    c.validated();
                    c.saw(&(secs, lines));
                    let (g, w) = (element_texts(&g.0)?, element_texts(&w.0)?);
                    if g != w {
                        return Err(format!("{} elements, expected {}; the first are {:?}", g.len(), w.len(), &g[..g.len().min(4)]));
                    }
                    Ok(())
                });
            }
        }
    }

    cx.family("missing files, missing and unfinished sections");
    for lib in [None, Some("t\n"), Some(""), Some("t\nR1 a b 1\n"), Some("t\n.lib tt\nR1 a b 1\n"), Some("t\n.lib tt2\nR1 a b 1\n.endl\n"), Some("t\n.lib t\nR1 a b 1\n.endl\n"), Some("t\n.lib TT\n.endl\n"), Some("t\n* .lib tt\nR1 a b 1\n.endl\n"), Some("t\n; .lib tt\nR1 a b 1\n.endl\n")] {
        for place in 0..3 {
            for lay in LAYOUTS {
                cx.case(&|| format!("{} imports tt of {}: {:?}", lay.deck, lay.name, lib), &mut |c| {
                    clean();
                    if let Some(d) = lay.decoy {
                        put(d, DECOY)?;
                    }
                    if let Some(t) = lib {
                        put(lay.lib, t)?;
                    }
                    put(lay.deck, &deck_text(&["tt"], place, &|s| format!(".lib {} {}\n", lay.name, s)))?;
                    c.step();
                    c.validated();
                    match read(lay.deck) {
                        Err(e) => {
                            c.saw(&e.len());
                            Ok(())
                        }
                        Ok(_) => Err("goes unnoticed".to_string()),
                    }
                });
            }
        }
    }
}
