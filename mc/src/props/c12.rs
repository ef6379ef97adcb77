//! C12 waveform files
use super::c03::check_rows;
use super::util::*;
use crate::harness::*;
use crate::hier::*;
use crate::net::*;
use crate::seed;
use crate::shipped;
use crate::wave::{self, Wave};
use std::path::Path;
use tiny_spice::analysis::Configuration;
use tiny_spice::circuit::Circuit;
use tiny_spice::engine::Engine;

pub fn def() -> PropDef {
    PropDef {
        id: "C12",
        run,
        rule: "every deck of families of flat and hierarchical decks (nets with 1 to 5 names, equal names at all levels, every connection, every kind of source in every order) with every seed of the node-name table up to a bound; header, units and shape of the file compared with the reference flattener, every row with the circuit equations by label, the first row bit for bit with the DC analysis; and the decks that come with the simulator (of a kind the property is about) and those one edit away from them",
        hang_s: 30,
    }
}

struct Out {
    ckt: Circuit,
    cfg: Configuration,
    wave: Wave,
    dc: Vec<f64>,
}

/// Read and simulate on a thread with its own hash seed
fn simulate(text: &str, seed: u64) -> Result<Out, String> {
    let text = text.to_string();
    let r = seed::with_seed(seed, move || -> Result<(Vec<(Prim, Option<usize>)>, Out), String> {
        let (ckt, cfg) = read_deck(&text)?;
        let file = "waves/d.spi/tran.dat";
        if cfg.wavefile != file && !Path::new(&cfg.wavefile).ends_with("tran.dat") {
            return Err(format!("waveform file is called {}", cfg.wavefile));
        }
        let _ = std::fs::remove_file(file);
        let mut eng = Engine::new();
        let st = eng.go(&ckt, &cfg).ok_or("no analysis")?;
        if st.end != cfg.TSTOP {
            return Err(format!("stopped at {:e}", st.end));
        }
        let raw = std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file, e))?;
        let wave = wave::parse(&raw)?;
        let mut e2 = Engine::new();
        e2.dc_operating_point(&ckt, &cfg);
        let dc = e2.dc().ok_or("no operating point")?;
        Ok((observe(&ckt)?, Out { ckt, cfg, wave, dc }))
    });
    match r {
        Ok(r) => r.map(|x| x.1),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            Err(format!("panic: {}", m.unwrap_or_default()))
        }
    }
}

fn check(d: &Deck, seed: u64, c: &mut Case) -> Result<(), String> {
    let f = flatten(d)?;
    let o = simulate(&d.text(), seed)?;
    c.validated();
    let map = compare(&f, &o.ckt)?;
    let lab = labels(&f, &map);
    let (els, used) = to_els(&f)?;
    let nn = used.len();
    let br = branches(&f, &map, &o.ckt)?;

    // header
    let mut want = vec!["Time".to_string()];
    want.extend(lab.iter().map(|l| format!("v({})", l)));
    want.extend((0..br.len()).map(|k| format!("i({})", k)));
    let mut got = o.wave.names.clone();
    if got.len() > 1 && ["v(0)", "v(GND)"].contains(&got[1].as_str()) {
        got[1] = "v(gnd)".to_string();
    }
    if got != want {
        return Err(format!("header is {:?}\nexpected {:?}", o.wave.names, want));
    }
    let mut units = vec!["s"];
    units.extend(vec!["V"; nn]);
    units.extend(vec!["A"; br.len()]);
    if o.wave.units != units {
        return Err(format!("units are {:?}", o.wave.units));
    }

    // first row
    let r0 = o.wave.rows.first().ok_or("no rows")?;
    if r0.0 != 0.0 || r0.1.iter().map(|v| v.to_bits()).ne(o.dc.iter().map(|v| v.to_bits())) {
        return Err(format!("first row is {:?}\noperating point is {:?}", r0, o.dc));
    }
    if o.wave.rows.last().map(|r| r.0) != Some(o.cfg.TSTOP) {
        return Err("last row isn't at the stop time to the last digit".to_string());
    }

    // rows by label, in the order of the reference
    let w = in_order(&o.wave.rows, &used, &map, &br);
    let order: Vec<usize> = (0..br.len()).collect();
    check_rows(&els, &w, &order, &o.cfg, impl_vt(), c)?;
    c.saw(&(lab, o.wave.rows.len()));
    Ok(())
}

/// Does the whole run work out?
fn settles(ckt: &Circuit, cfg: &Configuration, prims: usize) -> bool {
    let mut cf = cfg.clone();
    cf.set_wavefile("w/t.dat");
    let dc = run_dc(ckt, &cf);
    prims > 0 && dc.accepted(&cf) && Engine::new().transient_analysis(ckt, &cf).end == cf.TSTOP
}

fn cases(cx: &mut Cx, d: &Deck, seeds: u64) {
    for sd in 0..seeds {
        cx.case(&|| format!("hash seed {}\n{}", sd, d.text()), &mut |c| check(d, sd, c));
    }
}

fn run(cx: &mut Cx) {
    let ctl = || s("tran 0.25 2.1");
    let sine = || Val::Sin([0.1, 1.0 / 3.0, 0.3]);
    let pwl = || Val::Pwl(PwlSpec { pat: vec![(0.0, 0.3), (1.0, 1.7)], td: 0.0, rep: false });

    cx.family("flat decks, every pair of node names");
    let names = ["a", "A", "b1", "b10", "1", "2", "01", "n_1", "n_", "time", "out", "Vx", "gnd1", "gnda", "00"];
    for p in names {
        for q in names {
            if p == q {
                continue;
            }
            let top = vec![el("V1", &format!("{} 0", p), sine()), el("R1", &format!("{} {}", p, q), n(3.0)), el("C1", &format!("{} gnd", q), n(0.7)), el("R2", &format!("GND {}", q), n(7.0))];
            let d = Deck { top, control: ctl(), ..Deck::default() };
            cases(cx, &d, cx.deep(4, 16, 128));
        }
    }

    cx.family("every order of sources of every kind");
    permutations(4, &mut |p| {
        for with_sub in [false, true] {
            let cards = [
                el("V1", "a 0", sine()),
                el("V2", "b a", pwl()),
                el("V3", "c b", n(1.0 / 7.0)),
                el("E1", "d 0 a c", n(0.3)),
            ];
            let mut top: Vec<Item> = p.iter().map(|k| cards[*k].clone()).collect();
            top.push(el("R1", "c d", n(2.0)));
            top.push(el("C1", "d a", n(1.0)));
            let mut subs = vec![];
            if with_sub {
                top.insert(p[0], x("X1", "a d", "blk"));
                subs.push(sub("blk", "p q", vec![el("V9", "p m", n(0.2)), el("R1", "m q", n(4.0)), el("E7", "k 0 m q", n(0.5)), el("R2", "k q", n(5.0)), el("V3", "z k", sine()), el("R3", "z 0", n(6.0))]));
            }
            let d = Deck { top, subs, control: ctl(), subs_first: p[1] == 0 };
            cases(cx, &d, cx.deep(4, 16, 128));
        }
    });

    cx.family("one instance, every connection, the same or other names inside");
    for ports in [["p", "q"], ["a", "b"], ["b", "a"], ["m", "z"]] {
        for m in ["m", "a", "zz", "1", "A"] {
            if ports.contains(&m) {
                continue;
            }
            let nets = ["a", "b", "zz", "0", "GND"];
            tuples(2, nets.len(), &mut |ix| {
                let top = vec![
                    el("V1", "a 0", sine()),
                    el("R1", "a b", n(1.0)),
                    el("R2", "b 0", n(2.0)),
                    el("R3", "zz 0", n(5.0)),
                    el("R4", "zz b", n(5.0)),
                    x("X1", &format!("{} {}", nets[ix[0]], nets[ix[1]]), "blk"),
                ];
                let body = vec![el("R1", &format!("{} {}", ports[0], m), n(3.0)), el("C1", &format!("{} {}", m, ports[1]), n(1.0)), el("R2", &format!("{} {}", m, ports[1]), n(9.0))];
                let d = Deck { top, subs: vec![sub("blk", &ports.join(" "), body)], control: ctl(), subs_first: false };
                cases(cx, &d, cx.deep(3, 16, 128));
            });
        }
    }

    // a net handed down k levels has k+1 names
    cx.family("nets with up to five names");
    for levels in 1..=4usize {
        for scheme in 0..6 {
            for start in 0..=1 {
                let name = |l: usize, k: usize| -> String {
                    match scheme {
                        0 => format!("p{}", k),
                        1 => format!("l{}p{}", l, k),
                        2 => format!("{}{}", (b'z' - l as u8) as char, k),
                        3 => format!("{}{}", "x".repeat(9 - 2 * l), k),
                        // the full names are as long as each other, or shorter the deeper
                        4 => format!("{}{}", "x".repeat(20 - 3 * l), k),
                        _ => format!("{}{}", "x".repeat(50 - 9 * l), k),
                    }
                };
                let mut subs = vec![];
                for l in 1..=levels {
                    let (p, q) = (name(l, 0), name(l, 1));
                    let m = format!("m{}", if scheme == 0 { 0 } else { l });
                    let mut items = vec![el("R1", &format!("{} {}", p, m), n(1.0 + l as f64)), el("C1", &format!("{} {}", m, q), n(0.5)), el("R2", &format!("{} {}", m, q), n(3.0))];
                    if l < levels {
                        // hand down a port and the internal node
                        items.insert(l % 3, x("X1", &if l % 2 == start { format!("{} {}", p, m) } else { format!("{} {}", m, q) }, &format!("s{}", l + 1)));
                    }
                    subs.push(sub(&format!("s{}", l), &format!("{} {}", p, q), items));
                }
                let top = vec![
                    el("V1", &format!("{} 0", name(0, 0)), sine()),
                    x("X1", &format!("{} {}", name(0, 0), name(0, 1)), "s1"),
                    el("R1", &format!("{} 0", name(0, 1)), n(2.0)),
                    x("Xa", &format!("{} 0", name(0, 1)), "s1"),
                ];
                let d = Deck { top, subs, control: ctl(), subs_first: start == 1 };
                cases(cx, &d, cx.deep(64, 512, 4096));
            }
        }
    }

    cx.family("the decks that come with the simulator, and those with one card rewired");
    for sh in shipped::all() {
        if sh.name == "test_reader.spi" {
            continue; // has nodes without a path to ground
        }
        let d = sh.short(40.0);
        cases(cx, &d, cx.deep(16, 128, 1024));
        for e in shipped::rewired(&d) {
            cx.case(&|| format!("{}\n{}", sh.name, e.text()), &mut |c| {
                // as long as there is something to write
                let (ckt, cf) = read_deck(&e.text())?;
                let f = flatten(&e)?;
                if !settles(&ckt, &cf, f.prims.len()) {
                    c.skipped = true;
                    return Ok(());
                }
                check(&e, 0, c)
            });
        }
    }

    cx.family("two instances on the same nets, nets on many ports");
    for k in 1..=cx.deep(5, 8, 14) {
        let mut top = vec![el("V1", "a 0", sine()), el("R1", "a b", n(1.0)), el("R2", "b 0", n(1.0))];
        for i in 0..k {
            top.push(x(&format!("X{}", i), if i % 2 == 0 { "a b" } else { "b a" }, "blk"));
        }
        let body = vec![el("R1", "p m", n(3.0)), el("V1", "m k", n(0.1)), el("C1", "k q", n(1.0)), el("R2", "k q", n(4.0))];
        let d = Deck { top, subs: vec![sub("blk", "p q", body)], control: ctl(), subs_first: false };
        cases(cx, &d, cx.deep(64, 512, 4096));
    }

    cx.family("start times, diodes and current sources");
    for start in ["", " 0", " 0.6", " 2"] {
        for k in 0..3 {
            let top = match k {
                0 => vec![el("I1", "0 a", sine()), el("R1", "a 0", n(1.0 / 3.0)), el("C1", "a 0", n(0.2)), el("D1", "a b", Val::None), el("R2", "b 0", n(1e3))],
                1 => vec![el("V1", "in 0", sine()), el("D1", "in out", Val::None), el("R1", "out 0", n(100.0)), el("C1", "out 0", n(0.01)), el("G1", "o2 0 out 0", n(0.1)), el("R2", "o2 0", n(3.0))],
                _ => vec![el("I1", "0 a", n(1e-3)), el("R1", "a gnd", n(1e3 / 3.0))],
            };
            let d = Deck { top, control: format!("tran 0.25 2.1{}", start), ..Deck::default() };
            if start.trim().parse::<f64>().map_or(false, |t| t > 0.0) {
                // hidden rows: only the shape
                for sd in 0..4 {
                    cx.case(&|| format!("hash seed {}\n{}", sd, d.text()), &mut |c| {
                        let o = simulate(&d.text(), sd)?;
                        c.validated();
                        c.steps(o.wave.rows.len());
                        if o.wave.rows[0].1 != o.dc || o.wave.rows.last().map(|r| r.0) != Some(o.cfg.TSTOP) {
                            return Err("first or last row".to_string());
                        }
                        c.saw(&o.wave.names);
                        Ok(())
                    });
                }
            } else {
                cases(cx, &d, 8);
            }
        }
    }

    cx.family("values of every size");
    for e in -200..=200i32 {
        for m in ["1", "-1", "9.999999999999999", "-1.2345678901234567", "3.3"] {
            for (k, tran) in ["tran 0.25 2.1", "tran 1p 10p", "tran 1e6 1e7"].iter().enumerate() {
                if k != (e.rem_euclid(3)) as usize && !cx.thorough() {
                    continue;
                }
                let v = format!("{}e{}", m, e);
                let t = format!("t\nV1 a 0 {}\nR1 a 0 1\nI1 0 b {}\nR2 b 0 1\n.control\n{}\n.endc\n", v, v, tran);
                cx.case(&|| t.clone(), &mut |c| {
                    let v: f64 = v.parse().map_err(|_| "MACHINERY: value")?;
                    let o = simulate(&t, 0)?;
                    c.validated();
                    c.steps(o.wave.rows.len());
                    c.saw(&o.wave.rows[0].1.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
                    let (a, b) = (o.wave.names.iter().position(|x| x == "v(a)").map(|k| k - 1).ok_or("no v(a)")?, o.wave.names.iter().position(|x| x == "v(b)").map(|k| k - 1).ok_or("no v(b)")?);
                    if o.wave.rows[0].1.iter().map(|v| v.to_bits()).ne(o.dc.iter().map(|v| v.to_bits())) {
                        return Err(format!("first row is {:?}, operating point is {:?}", o.wave.rows[0], o.dc));
                    }
                    for (tm, r) in &o.wave.rows {
                        if r[0] != 0.0 || r.len() != 4 {
                            return Err(format!("row at {:e} is {:?}", tm, r));
                        }
                        for x in [r[a], r[b], -r[3]] {
                            if !((x - v).abs() <= 1e-14 * v.abs()) {
                                return Err(format!("row at {:e} is {:?}, expected {:e}", tm, r, v));
                            }
                        }
                    }
                    if o.wave.rows.last().map(|r| r.0) != Some(o.cfg.TSTOP) || o.wave.rows.windows(2).any(|w| w[0].0 >= w[1].0) {
                        return Err("timepoints".to_string());
                    }
                    Ok(())
                });
            }
        }
    }

    cx.family("times of many digits");
    for tran in ["0.123456789012345 1.234567890123456", "0.1 1.0000000000000002", "0.3333333333333333 2.123456789e0", "1.23456789012e-12 1.12345678901234e-11", "7.654321098765e8 9.87654321012345e9", "0.25 1.9999999999999998", "3.14159265358979n 31.4159265358979n"] {
        for k in 0..3 {
            let t: f64 = tran.split(' ').nth(1).expect("two times").trim_end_matches('n').parse::<f64>().expect("a time") * if tran.ends_with('n') { 1e-9 } else { 1.0 };
            let top = match k {
                0 => vec![el("V1", "in 0", n(1.0 / 3.0)), el("R1", "in out", n(1.0)), el("C1", "out 0", n(t / 7.0)), el("I1", "out 0", n(0.1))],
                1 => vec![el("I1", "0 a", Val::Sin([0.1, 1.0 / 3.0, 0.7 / t])), el("R1", "a 0", n(3.0)), el("C1", "a 0", n(t / 3.0))],
                _ => vec![el("V1", "in 0", Val::Pwl(PwlSpec { pat: vec![(0.0, 0.3), (t, 1.7)], td: 0.0, rep: false })), el("R1", "in 0", n(3.0))],
            };
            let d = Deck { top, control: format!("tran {}", tran), ..Deck::default() };
            cases(cx, &d, 2);
        }
    }

    cx.family("many columns, many rows");
    for nets in [1, 9, 10, 11, 33, cx.deep(60, 120, 400)] {
        for vs in [0, 1, 5, 12] {
            for stop in ["2.1", "60"] {
                let mut top = vec![el("I1", "0 n0", sine()), el("R0", "n0 0", n(1.0))];
                for k in 1..nets {
                    top.push(el(&format!("R{}", k), &format!("n{} n{}", k - 1, k), n(1.0)));
                    top.push(el(&format!("C{}", k), &format!("n{} 0", k), n(0.1 * k as f64)));
                }
                for k in 0..vs {
                    top.push(el(&format!("V{}", k), &format!("s{} n{}", k, k % nets), n(0.1 * (k + 1) as f64)));
                    top.push(el(&format!("Rs{}", k), &format!("s{} 0", k), n(2.0)));
                }
                let d = Deck { top, control: format!("tran 0.25 {}", stop), ..Deck::default() };
                cases(cx, &d, 2);
            }
        }
    }

    // is the seed really an input?
    cx.family("the seeds reach different orders of a name table");
    cx.case(&|| "orders of the keys of a map of 6 names, 64 seeds".to_string(), &mut |c| {
        let mut orders = std::collections::BTreeSet::new();
        for sd in 0..64 {
            let o = seed::with_seed(sd, || {
                let m: std::collections::HashMap<String, usize> = (0..6).map(|k| (format!("n{}", k), k)).collect();
                m.keys().cloned().collect::<Vec<_>>()
            });
            let o = o.map_err(|_| "panic".to_string())?;
            orders.insert(o);
            c.step();
        }
        c.validated();
        c.saw(&orders.len());
        if orders.len() < 32 {
            return Err(format!("MACHINERY: only {} orders out of 64 seeds", orders.len()));
        }
        Ok(())
    });
}
