//! C11 repeatability
use super::c03::{circuits, tran_cfg};
use super::util::*;
use crate::harness::*;
use crate::hier;
use crate::net::El::*;
use crate::net::*;
use std::path::Path;
use tiny_spice::analysis::Configuration;
use tiny_spice::circuit::Circuit;
use tiny_spice::engine::Engine;
use tiny_spice::spice::Reader;

pub fn def() -> PropDef {
    PropDef {
        id: "C11",
        run,
        rule: "every sequence of up to 3 (thorough 4) analyses out of an alphabet of operating points and transients of circuits with every kind of element, on one engine and on shared circuits and configurations; each result compared bit for bit with the same analysis on a fresh engine, fresh circuit and fresh configuration; decks read and expanded repeatedly, in every order",
        hang_s: 20,
    }
}

#[derive(Clone)]
struct Job {
    name: String,
    els: Vec<El>,
    cfg: Configuration,
    /// call the analysis directly and not through `go`
    direct: u8,
}

#[derive(PartialEq, Clone, Debug)]
struct Res {
    kind: String,
    end: u64,
    iterations: usize,
    wave: Option<String>,
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

fn perform(eng: &mut Engine, j: &Job, ckt: &Circuit, cfg: &Configuration) -> Option<Res> {
    let _ = std::fs::remove_file(&cfg.wavefile);
    let st = match j.direct {
        0 => eng.go(ckt, cfg),
        1 => Some(eng.dc_operating_point(ckt, cfg)),
        _ => Some(eng.transient_analysis(ckt, cfg)),
    };
    st.map(|st| Res { kind: format!("{}", st.kind), end: st.end.to_bits(), iterations: st.iterations, wave: std::fs::read_to_string(&cfg.wavefile).ok() })
}

fn cfg_text(c: &Configuration) -> String {
    format!(
        "{:?}",
        (
            c.kind.as_ref().map(|k| format!("{}", k)),
            [c.GMIN, c.TDEGC, c.RELTOL, c.VNTOL, c.ABSTOL, c.TSTART, c.TSTOP, c.TSTEP, c.FS, c.FT, c.RMIN, c.RMAX],
            c.ITL1, c.ITL3, c.ITL4, &c.ckt_name, &c.wavefile
        )
    )
}

/// Everything there is to know about a circuit
fn ckt_text(c: &Circuit) -> String {
    let mut nodes: Vec<_> = c.nodes.iter().collect();
    nodes.sort();
    let mut lut: Vec<_> = c.node_id_lut.iter().collect();
    lut.sort();
    let els: Vec<String> = c.elements.iter().map(|e| format!("{}", e)).collect();
    let obs = hier::observe(c);
    format!("{:?} {:?} {:?} {:?} {} {} {} {:?}", nodes, lut, els, obs.map(|o| o.len()), c.nid_next, c.v_idx_next, c.instances.len(), obs_vals(c))
}
fn obs_vals(c: &Circuit) -> Vec<(Vec<u64>, Option<usize>)> {
    hier::observe(c).map(|o| o.into_iter().map(|(p, i)| (bits(&p.vals), i)).collect()).unwrap_or_default()
}

fn jobs(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let cs = circuits();
    let dcfg = || {
        let mut c = cfg();
        c.set_dc_operating_point();
        c.set_wavefile("w/dc.dat");
        c
    };
    let mut tc = tran_cfg(0.5, 6.0, 0.0);
    let mut ts = tran_cfg(1.0, 7.3, 2.0);
    ts.RMAX = 1.0;
    tc.RELTOL = 1e-5;
    v.push(Job { name: "tran rectifier".to_string(), els: cs[4].clone(), cfg: tc.clone(), direct: 0 });
    v.push(Job { name: "tran RC".to_string(), els: cs[0].clone(), cfg: ts.clone(), direct: 2 });
    v.push(Job { name: "op rectifier".to_string(), els: vec![V(1, 0, 9.0), R(1, 2, 5.0), D(2, 3, 1e-9), D(4, 2, 1e-9), D(0, 3, 1e-9), D(4, 0, 1e-9), R(3, 4, 50.0), R(4, 0, 1e5)], cfg: dcfg(), direct: 0 });
    v.push(Job { name: "op controlled sources".to_string(), els: cs[6].clone(), cfg: dcfg(), direct: 1 });
    v.push(Job { name: "tran PWL and E".to_string(), els: cs[5].clone(), cfg: ts, direct: 0 });
    v.push(Job { name: "tran one node".to_string(), els: vec![Is(0, 1, [1.0, 0.5, 0.2]), R(1, 0, 2.0), C(1, 0, 1.0)], cfg: tc, direct: 0 });
    v.push(Job { name: "op singular".to_string(), els: vec![V(1, 0, 1.0), V(1, 0, 2.0), R(1, 0, 1.0)], cfg: dcfg(), direct: 0 });
    let mut stuck = tran_cfg(0.5, 6.0, 0.0);
    stuck.ITL4 = 2;
    stuck.RMIN = 0.5;
    v.push(Job { name: "tran which gives up".to_string(), els: cs[3].clone(), cfg: stuck, direct: 0 });
    v.push(Job { name: "tran without an operating point".to_string(), els: vec![V(1, 0, 1.0), R(1, 2, 1.0), C(2, 0, 1.0), I(0, 3, 1.0), C(3, 0, 1.0)], cfg: tran_cfg(0.5, 2.0, 0.0), direct: 0 });
    let mut few = tran_cfg(0.5, 2.0, 0.0);
    few.ITL1 = 1;
    v.push(Job { name: "tran whose operating point isn't found in time".to_string(), els: vec![V(1, 0, 5.0), R(1, 2, 1.0), D(2, 0, 1e-9), C(2, 0, 1.0)], cfg: few, direct: 2 });
    v.push(Job { name: "no analysis".to_string(), els: cs[1].clone(), cfg: cfg(), direct: 0 });
    if thorough {
        v.push(Job { name: "op clamp".to_string(), els: vec![I(0, 1, 1e-2), D(1, 0, 1e-12), R(1, 0, 1e6)], cfg: dcfg(), direct: 0 });
        v.push(Job { name: "op big".to_string(), els: (1..8).flat_map(|k| vec![R(k, k - 1, 1.0), I(0, k, 0.1)]).collect(), cfg: dcfg(), direct: 1 });
        v.push(Job { name: "tran isin".to_string(), els: cs[2].clone(), cfg: tran_cfg(0.3, 5.0, 0.0), direct: 2 });
    }
    v
}

/// The element with another value, turned around, or one of another kind
fn nudge(e: &El, how: usize) -> Option<El> {
    Some(match (e, how) {
        (R(a, b, v), 0) => R(*a, *b, v * 1.5),
        (R(a, b, v), 1) => C(*a, *b, *v),
        (R(a, b, v), 2) => D(*a, *b, *v * 1e-9),
        (C(a, b, v), 0) => C(*a, *b, v * 1.5),
        (C(a, b, v), 1) => R(*a, *b, *v),
        (D(a, b, v), 0) => D(*a, *b, v * 10.0),
        (D(a, b, v), 1) => D(*b, *a, *v),
        (D(a, b, _), 2) => R(*a, *b, 2.0),
        (V(a, b, v), 0) => V(*a, *b, v * 1.5),
        (V(a, b, v), 1) => V(*b, *a, *v),
        (V(a, b, v), 2) => Vs(*a, *b, [*v, 0.5, 0.3]),
        (V(a, b, v), 3) => I(*a, *b, *v),
        (I(a, b, v), 0) => I(*a, *b, v * 1.5),
        (I(a, b, v), 1) => V(*a, *b, *v),
        (I(a, b, v), 2) => Is(*a, *b, [*v, 0.5, 0.3]),
        (Vs(a, b, p), 0) => Vs(*a, *b, [p[0], p[1] * 1.5, p[2]]),
        (Vs(a, b, p), 1) => V(*a, *b, p[0]),
        (Vs(a, b, p), 2) => Vs(*a, *b, [p[0], p[1], p[2] * 1.5]),
        (Is(a, b, p), 0) => Is(*a, *b, [p[0], p[1] * 1.5, p[2]]),
        (Is(a, b, p), 1) => I(*a, *b, p[0]),
        (E(p, n, cp, cn, k), 0) => E(*p, *n, *cp, *cn, k * 1.5),
        (E(p, n, cp, cn, k), 1) => G(*p, *n, *cp, *cn, *k),
        (G(p, n, cp, cn, k), 0) => G(*p, *n, *cp, *cn, k * 1.5),
        (G(p, n, cp, cn, k), 1) => E(*p, *n, *cp, *cn, *k),
        _ => return None,
    })
}

fn run(cx: &mut Cx) {
    let js = jobs(cx.thorough());
    for len in 1..=cx.deep(4, 5, 5) {
        cx.family(&format!("all sequences of {} analyses on one engine", len));
        tuples(len, js.len(), &mut |ix| {
            for share in [false, true] {
                cx.case(&|| format!("{}{}", ix.iter().map(|k| js[*k].name.clone()).collect::<Vec<_>>().join(", "), if share { " (same circuits and configurations again)" } else { "" }), &mut |c| {
                    let mut eng = Engine::new();
                    // the circuits and configurations which are used over again
                    let shared: Vec<(Circuit, Configuration)> = js.iter().map(|j| (build(&j.els), j.cfg.clone())).collect();
                    for (step, k) in ix.iter().enumerate() {
                        let j = &js[*k];
                        let (ckt, cf) = if share { (shared[*k].0.clone(), shared[*k].1.clone()) } else { (build(&j.els), j.cfg.clone()) };
                        let (rc, rf) = if share { (&shared[*k].0, &shared[*k].1) } else { (&ckt, &cf) };
                        let (before, cbefore) = (ckt_text(rc), cfg_text(rf));
                        let got = perform(&mut eng, j, rc, rf);
                        if ckt_text(rc) != before {
                            return Err(format!("step {}: the analysis changed the circuit", step));
                        }
                        if cfg_text(rf) != cbefore {
                            return Err(format!("step {}: the analysis changed the configuration", step));
                        }
                        let mut fresh = Engine::new();
                        let want = perform(&mut fresh, j, &build(&j.els), &j.cfg.clone());
                        c.step();
                        c.validated();
                        if got != want {
                            return Err(format!("step {} ({}): got {:?}\nfresh engine gives {:?}", step, j.name, short(&got), short(&want)));
                        }
                        c.saw(&want.as_ref().map(|w| (w.iterations, w.end)));
                    }
                    // the last solution
                    let last = &js[ix[ix.len() - 1]];
                    let mut fresh = Engine::new();
                    let w = perform(&mut fresh, last, &build(&last.els), &last.cfg.clone());
                    if w.is_some() {
                        let (g, w) = (eng.dc().map(|v| bits(&v)), fresh.dc().map(|v| bits(&v)));
                        if g != w {
                            return Err(format!("operating point {:?}, fresh engine gives {:?}", g, w));
                        }
                    }
                    Ok(())
                });
            }
        });
    }

    cx.family("the same analysis over and over, and all of them in turn");
    for (k, j) in js.iter().enumerate() {
        for among in [1, 2, 3, js.len()] {
            cx.case(&|| format!("{} and the {} after it in turn, 40 analyses", j.name, among - 1), &mut |c| {
                let mut eng = Engine::new();
                let turn: Vec<&Job> = (0..among).map(|a| &js[(k + a) % js.len()]).collect();
                let kept: Vec<(Circuit, Configuration)> = turn.iter().map(|j| (build(&j.els), j.cfg.clone())).collect();
                let want: Vec<Option<Res>> = turn.iter().map(|j| perform(&mut Engine::new(), j, &build(&j.els), &j.cfg.clone())).collect();
                for step in 0..40 {
                    let a = step % among;
                    let got = perform(&mut eng, turn[a], &kept[a].0, &kept[a].1);
                    c.step();
                    if got != want[a] {
                        return Err(format!("analysis {} ({}): got {:?}\nfresh engine gives {:?}", step, turn[a].name, short(&got), short(&want[a])));
                    }
                }
                c.validated();
                c.saw(&want[0].as_ref().map(|w| (w.iterations, w.end)));
                Ok(())
            });
        }
    }

    // something kept back may only show if the next analysis is nearly the same
    cx.family("analyses which differ by one setting, or one element");
    let base: Vec<Vec<El>> = {
        let cs = circuits();
        (0..cs.len()).map(|k| cs[k].clone()).collect()
    };
    type Tweak = fn(&mut Configuration);
    let tweaks: Vec<(&str, Tweak)> = vec![
        ("nothing", |_| {}),
        ("RELTOL", |c| c.RELTOL = 0.05),
        ("VNTOL", |c| c.VNTOL = 0.1),
        ("ABSTOL", |c| c.ABSTOL = 0.1),
        ("ITL1", |c| c.ITL1 = 2),
        ("ITL3", |c| c.ITL3 = 2),
        ("ITL4", |c| c.ITL4 = 3),
        ("TSTART", |c| c.TSTART = 3.1),
        ("TSTOP", |c| c.TSTOP = 2.3),
        ("TSTEP", |c| c.TSTEP = 0.11),
        ("FS", |c| c.FS = 1.0),
        ("FT", |c| c.FT = 0.5),
        ("RMIN", |c| c.RMIN = 0.2),
        ("RMAX", |c| c.RMAX = 1.0),
        ("the kind", |c| c.set_dc_operating_point()),
        ("the file", |c| c.set_wavefile("w/other.dat")),
    ];
    for (k, els) in base.iter().enumerate() {
        for (ta, fa) in &tweaks {
            for (tb, fb) in &tweaks {
                cx.case(&|| format!("circuit {}, with another {}, then with another {}, then the first again", k, ta, tb), &mut |c| {
                    let mut eng = Engine::new();
                    for f in [fa, fb, fa] {
                        let mut cf = tran_cfg(0.5, 6.0, 0.0);
                        f(&mut cf);
                        let j = Job { name: String::new(), els: els.clone(), cfg: cf, direct: 0 };
                        let got = perform(&mut eng, &j, &build(&j.els), &j.cfg);
                        let want = perform(&mut Engine::new(), &j, &build(&j.els), &j.cfg);
                        c.step();
                        if got != want {
                            return Err(format!("got {:?}\nfresh engine gives {:?}", short(&got), short(&want)));
                        }
                        c.saw(&want.as_ref().map(|w| (w.iterations, w.end, w.wave.as_ref().map(|w| w.len()))));
                    }
                    c.validated();
                    Ok(())
                });
            }
        }
        for at in 0..els.len() {
            for how in 0..4 {
                let Some(other) = nudge(&els[at], how) else { continue };
                cx.case(&|| format!("circuit {}, then with {:?} for {:?}, then the first again", k, other, els[at]), &mut |c| {
                    let mut eng = Engine::new();
                    let mut second = els.clone();
                    second[at] = other.clone();
                    for els in [els, &second, els] {
                        let j = Job { name: String::new(), els: els.clone(), cfg: tran_cfg(0.5, 3.0, 0.0), direct: 0 };
                        let got = perform(&mut eng, &j, &build(&j.els), &j.cfg);
                        let want = perform(&mut Engine::new(), &j, &build(&j.els), &j.cfg);
                        c.step();
                        if got != want {
                            return Err(format!("got {:?}\nfresh engine gives {:?}", short(&got), short(&want)));
                        }
                        c.saw(&want.as_ref().map(|w| (w.iterations, w.end)));
                    }
                    c.validated();
                    Ok(())
                });
            }
        }
    }

    // something kept back may only matter for a bigger, or a smaller, circuit
    cx.family("circuits of every size after circuits of every size");
    let sized = |size: usize, form: usize| -> Vec<El> {
        let mut v = vec![R(1, 0, 3.0)];
        for k in 1..=size {
            let (a, b) = (if k % 3 == 0 { 0 } else { k }, k + 1);
            v.push(R(a, b, 1.0 + k as f64));
            match (form + k) % 6 {
                0 => v.push(C(b, 0, 0.5)),
                1 => v.extend([D(b, 0, 1e-9), R(b, 0, 9.0)]),
                2 => v.push(Is(0, b, [0.1, 0.5, 0.3])),
                3 => v.extend([C(b, k, 0.2), C(0, b, 0.1)]),
                4 => v.push(G(b, 0, k, 0, 0.1)),
                _ => v.push(R(b, 0, 5.0)),
            }
        }
        match form {
            0 => v.push(V(1, 0, 2.0)),
            1 => v.push(Vs(1, 0, [1.0, 1.0, 0.5])),
            _ => v.push(I(0, 1, 1.0)),
        }
        v
    };
    let most = cx.deep(9, 14, 24);
    for (f1, f2) in [(0, 0), (0, 1), (1, 0), (1, 2), (2, 1), (2, 2)] {
        for n1 in 1..=most {
            for n2 in 1..=most {
                cx.case(&|| format!("size {} form {}, then size {} form {}, then the first again", n1, f1, n2, f2), &mut |c| {
                    let mut eng = Engine::new();
                    for (size, form) in [(n1, f1), (n2, f2), (n1, f1)] {
                        let mut cf = tran_cfg(0.5, 2.0, 0.0);
                        cf.ITL1 = 100;
                        let j = Job { name: String::new(), els: sized(size, form), cfg: cf, direct: 2 };
                        let got = perform(&mut eng, &j, &build(&j.els), &j.cfg);
                        let want = perform(&mut Engine::new(), &j, &build(&j.els), &j.cfg);
                        c.step();
                        if got != want {
                            return Err(format!("size {} form {}: got {:?}\nfresh engine gives {:?}", size, form, short(&got), short(&want)));
                        }
                        c.saw(&want.as_ref().map(|w| (w.iterations, w.end, size, form)));
                    }
                    c.validated();
                    Ok(())
                });
            }
        }
    }

    // analyses on clones of a circuit that has been used
    cx.family("used circuits and their clones");
    for j in &js {
        for uses in 0..4 {
            cx.case(&|| format!("{} after {} uses", j.name, uses), &mut |c| {
                let ckt = build(&j.els);
                for _ in 0..uses {
                    let mut e = Engine::new();
                    perform(&mut e, j, &ckt, &j.cfg);
                }
                let clone = ckt.clone();
                let mut res = vec![];
                for k in [&ckt, &clone, &build(&j.els)] {
                    let mut e = Engine::new();
                    let r = perform(&mut e, j, k, &j.cfg);
                    res.push((r, e.dc().map(|v| bits(&v))));
                    c.step();
                }
                c.validated();
                c.saw(&res[0].1);
                if res[0] != res[2] || res[1] != res[2] {
                    return Err("the results differ".to_string());
                }
                Ok(())
            });
        }
    }

    cx.family("decks read, expanded and simulated in every order");
    let decks: Vec<String> = vec![
        deck(&circuits()[4], "tran 0.5 6"),
        deck(&circuits()[5], "option RMAX = 1\ntran 0.5 5 1"),
        "t\nV1 a 0 5\nX1 a b s p=2k\nX2 b 0 s\nD1 b 0\n.subckt s x y p=1k\nR1 x m {p}\nR2 m y {p}\nV1 m k 1\nR3 k y 5\n.ends\n.control\nop\n.endc\n".to_string(),
        "t\nI1 0 z 1m\nX1 z s\n.subckt s x\nR1 x n 1k\nD1 n 0\nC1 n 0 1u\n.ends\n.control\ntran 1u 50u\n.endc\n".to_string(),
    ];
    let nd = decks.len();
    for len in 1..=cx.deep(3, 4, 5) {
        tuples(len, nd, &mut |ix| {
            for mode in 0..2 {
                cx.case(&|| format!("decks {:?}, mode {}", ix, mode), &mut |c| {
                    let mut eng = Engine::new();
                    for k in ix {
                        let sim = |eng: &mut Engine, twice: bool| -> Result<(String, Option<Res>), String> {
                            std::fs::write("d.spi", &decks[*k]).map_err(|e| e.to_string())?;
                            let mut r = Reader::new();
                            if r.read(Path::new("d.spi")) {
                                return Err("errors".to_string());
                            }
                            let a = r.get_expanded_circuit();
                            let a = if twice { r.get_expanded_circuit() } else { a };
                            let j = Job { name: String::new(), els: vec![], cfg: r.configuration().clone(), direct: 0 };
                            Ok((ckt_text(&a), perform(eng, &j, &a, r.configuration())))
                        };
                        let got = sim(&mut eng, mode == 1)?;
                        let want = sim(&mut Engine::new(), false)?;
                        c.step();
                        c.validated();
                        if got.0 != want.0 {
                            return Err(format!("deck {} expands to\n{}\nand then to\n{}", k, want.0, got.0));
                        }
                        if got.1 != want.1 {
                            return Err(format!("deck {} gives {:?} and then {:?}", k, short(&want.1), short(&got.1)));
                        }
                        c.saw(&got.0);
                    }
                    Ok(())
                });
            }
        });
    }
}

fn short(r: &Option<Res>) -> String {
    match r {
        None => "nothing".to_string(),
        Some(r) => format!(
            "{} end={:e} iterations={} wave={}",
            r.kind, f64::from_bits(r.end), r.iterations,
            r.wave.as_ref().map_or("none".to_string(), |w| format!("{} lines, {:016x}", w.lines().count(), fnv(w)))
        ),
    }
}
