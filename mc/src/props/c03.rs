//! C03 transient equations, C04 timeline, C21 struggling transients
use super::util::*;
use crate::harness::*;
use crate::net::El::*;
use crate::hier::*;
use crate::net::*;
use crate::shipped;
use crate::wave::{self, Wave};
use std::path::Path;
use tiny_spice::analysis::Configuration;
use tiny_spice::circuit::Circuit;
use tiny_spice::engine::Engine;

pub fn def03() -> PropDef {
    PropDef { id: "C03", run: run03, rule: "every set of up to 3 (thorough 4) elements on 3 nodes and every sequence of 2 (thorough 3) elements on a loaded network, run for 10 steps; reference circuits at five time scales x timestep settings; circuits that struggle x iteration limits x step factors; long runs; large circuits; decks through the reader. Every row is put into the circuit equations at its own time with the row before it, and the first one compared with the DC analysis; and the decks that come with the simulator (of a kind the property is about) and those one edit away from them", hang_s: 20 }
}
pub fn def04() -> PropDef {
    PropDef { id: "C04", run: run04, rule: "reference circuits x TSTEP x TSTOP x RMAX x FS x ITL3, each with every TSTART of a list, at time scales from ps to ks, and through the reader; every timepoint checked, and the rows after TSTART compared bit for bit with those of the run with TSTART=0", hang_s: 20 }
}
pub fn def21() -> PropDef {
    PropDef { id: "C21", run: run21, rule: "circuits that struggle, recover, fail or are singular x ITL4 x FT x RMIN x ITL3 x TSTEP; every row put into the circuit equations, and the sequence of steps and the iteration count checked for being reachable in a nondeterministic model of the step controller; all sets of up to 3 (thorough 4) elements without an operating point", hang_s: 20 }
}

fn pick(al: &[El], ix: &[usize]) -> Vec<El> {
    ix.iter().map(|i| al[*i].clone()).collect()
}

pub struct TranRes {
    pub wave: Wave,
    pub end: f64,
    pub iterations: usize,
    pub x: Vec<f64>,
}

pub fn run_tran(ckt: &Circuit, cfg: &Configuration) -> Result<TranRes, String> {
    let mut eng = Engine::new();
    let st = eng.transient_analysis(ckt, cfg);
    let wave = wave::load(Path::new(&cfg.wavefile))?;
    Ok(TranRes { wave, end: st.end, iterations: st.iterations, x: eng.dc().unwrap_or_default() })
}

pub fn tran_cfg(tstep: f64, tstop: f64, tstart: f64) -> Configuration {
    let mut c = cfg();
    c.set_transient(tstop, tstep, tstart);
    c.set_wavefile("w/t.dat");
    c
}

/// Every row satisfies the circuit equations, given the one before
pub fn check_rows(els: &[El], w: &Wave, branch: &[usize], cfg: &Configuration, vt: f64, c: &mut Case) -> Result<(), String> {
    let nn = n_nodes(els);
    let slack = Slack { reltol: cfg.RELTOL, vntol: cfg.VNTOL };
    if w.rows.is_empty() {
        return Err("no rows".to_string());
    }
    for k in 0..w.rows.len() {
        let (t, x) = &w.rows[k];
        // an all but zero solution is compared with the zero start vector and so the diodes
        // may still be linearised at the last timestep
        let quiet = x.iter().all(|v| v.abs() <= cfg.ABSTOL.max(cfg.VNTOL) * 1.01);
        if quiet && els.iter().any(|e| matches!(e, D(..))) {
            continue;
        }
        let r = if k == 0 {
            check_equations(els, nn, branch, x, *t, None, vt, Some(slack))
        } else {
            let (tp, xp) = &w.rows[k - 1];
            check_equations(els, nn, branch, x, *t, Some(&Prev { x: xp, dt: t - tp }), vt, Some(slack))
        };
        r.map_err(|m| format!("row {} of {}: {}", k, w.rows.len(), m))?;
        c.step();
    }
    Ok(())
}

/// Timeline of a run which reached the end
pub fn check_times(w: &Wave, cfg: &Configuration, end: f64) -> Result<(), String> {
    let ts: Vec<f64> = w.rows.iter().map(|r| r.0).collect();
    if ts.first() != Some(&0.0) {
        return Err(format!("first row is at {:?}", ts.first()));
    }
    if end != cfg.TSTOP {
        return Err(format!("analysis ended at {:e}, not at TSTOP {:e}", end, cfg.TSTOP));
    }
    if ts[ts.len() - 1] != cfg.TSTOP {
        return Err(format!("last row is at {:e}, not at TSTOP {:e}", ts[ts.len() - 1], cfg.TSTOP));
    }
    let dmax = cfg.RMAX * cfg.TSTEP * (1.0 + 2e-6);
    for k in 1..ts.len() {
        if !(ts[k] > ts[k - 1]) {
            return Err(format!("time goes from {:e} to {:e} at row {}", ts[k - 1], ts[k], k));
        }
        if ts[k] < cfg.TSTART {
            return Err(format!("row at {:e}, before TSTART {:e}", ts[k], cfg.TSTART));
        }
        // the first visible step may hide steps before TSTART
        if (k > 1 || cfg.TSTART == 0.0) && ts[k] - ts[k - 1] > dmax {
            return Err(format!("step of {:e} at row {} is bigger than RMAX*TSTEP = {:e}", ts[k] - ts[k - 1], k, dmax));
        }
    }
    Ok(())
}

fn check03(els: &[El], cfg: &Configuration, vt: f64, c: &mut Case) -> Result<(), String> {
    let ckt = build(els);
    let dc = run_dc(&ckt, cfg);
    if !dc.accepted(cfg) {
        c.skipped = true;
        return Ok(());
    }
    let r = run_tran(&ckt, cfg)?;
    c.validated();
    if r.end != cfg.TSTOP {
        return Err(format!("the analysis gave up at {:e}, before TSTOP {:e}", r.end, cfg.TSTOP));
    }
    if r.wave.rows.is_empty() || r.wave.rows[0].1 != dc.x {
        return Err(format!("first row {:?} is not the DC operating point {:?}", r.wave.rows.first(), dc.x));
    }
    check_rows(els, &r.wave, &branch_in_order(els), cfg, vt, c)?;
    let last = &r.wave.rows[r.wave.rows.len() - 1];
    let q: Vec<i64> = last.1.iter().map(|v| (v * 1e6).round() as i64).collect();
    c.saw(&(r.wave.rows.len(), q));
    Ok(())
}

fn pulse(v: f64) -> PwlSpec {
    PwlSpec { pat: vec![(0.0, 0.0), (1.0, v), (2.0, v), (2.5, 0.0)], td: 0.5, rep: true }
}

fn alphabet03(n: usize, full: bool) -> Vec<El> {
    let mut al = vec![];
    for (a, b) in unordered_pairs(n) {
        al.push(R(a, b, 2.0));
        al.push(C(a, b, 1.0));
        if full {
            al.push(C(b, a, 0.25));
        }
    }
    for (a, b) in if full { ordered_pairs(n) } else { unordered_pairs(n) } {
        al.push(Vs(a, b, [0.5, 2.0, 0.11]));
        al.push(Is(a, b, [0.0, 1.0, 0.3]));
        al.push(Vp(b, a, pulse(3.0)));
        al.push(V(a, b, 1.0));
        al.push(I(a, b, 0.5));
        al.push(D(a, b, 1e-9));
        if !full {
            al.push(D(b, a, 1e-9));
        }
    }
    for (a, b) in unordered_pairs(n) {
        for (x, y) in unordered_pairs(n) {
            al.push(E(a, b, x, y, 0.5));
            al.push(G(a, b, x, y, 0.25));
        }
    }
    al
}

/// With ends on one node
fn loops03(n: usize) -> Vec<El> {
    let mut al = vec![];
    for a in 0..n {
        al.extend([R(a, a, 2.0), C(a, a, 1.0), I(a, a, 0.5), Is(a, a, [0.5, 1.0, 0.3]), D(a, a, 1e-9)]);
    }
    for (a, b) in unordered_pairs(n) {
        al.extend([G(a, a, a, b, 0.25), G(b, a, a, a, 0.25), E(a, b, b, b, 0.5), G(a, b, a, b, 0.25), E(a, b, a, b, 0.5)]);
    }
    al
}

/// Well-posed circuits with memory for the configuration families
pub fn circuits() -> Vec<Vec<El>> {
    vec![
        vec![Vs(1, 0, [1.0, 2.0, 0.13]), R(1, 2, 1.0), C(2, 0, 1.0)],
        vec![Vp(1, 0, pulse(5.0)), R(1, 2, 1.0), C(2, 0, 0.5), C(2, 3, 1.0), R(3, 0, 4.0)],
        vec![Is(0, 1, [0.1, 0.5, 0.2]), R(1, 0, 2.0), C(1, 2, 2.0), R(2, 0, 1.0), C(0, 2, 0.1)],
        vec![Vs(1, 0, [0.0, 5.0, 0.05]), R(1, 2, 10.0), D(2, 3, 1e-9), C(3, 0, 0.5), R(3, 0, 20.0)],
        vec![Vs(1, 0, [0.0, 6.0, 0.04]), R(1, 2, 5.0), D(2, 3, 1e-9), D(4, 2, 1e-9), D(0, 3, 1e-9), D(4, 0, 1e-9), R(3, 4, 50.0), C(3, 4, 0.2), R(4, 0, 1e5)],
        vec![I(0, 1, 1.0), R(1, 0, 1.0), C(1, 0, 3.0), E(2, 0, 1, 0, 2.0), R(2, 3, 1.0), C(3, 0, 1.0), Vp(4, 0, pulse(1.0)), R(4, 1, 2.0)],
        vec![V(1, 0, 2.0), R(1, 2, 2.0), C(2, 0, 1.0), G(2, 0, 3, 0, 0.1), Vs(3, 0, [0.0, 1.0, 0.5]), R(3, 0, 1.0)],
    ]
}

fn cfg_desc(c: &Configuration) -> String {
    format!(
        "TSTEP={} TSTOP={} TSTART={} RMAX={} FS={} FT={} RMIN={} ITL3={} ITL4={} RELTOL={}",
        c.TSTEP, c.TSTOP, c.TSTART, c.RMAX, c.FS, c.FT, c.RMIN, c.ITL3, c.ITL4, c.RELTOL
    )
}

/// Linear, and has one solution for every timestep: checked by the engine itself accepting DC and
/// by every node having a path to ground through R, C or sources in the tree sense
fn well_posed_tran(els: &[El]) -> bool {
    if !contiguous(els) || els.iter().any(|e| e.degenerate()) {
        return false;
    }
    // no loops of voltage sources
    let n = n_nodes(els);
    let mut p: Vec<usize> = (0..n).collect();
    fn find(p: &mut [usize], mut x: usize) -> usize {
        while p[x] != x {
            x = p[x];
        }
        x
    }
    for e in els {
        if e.has_branch() {
            let ns = e.nodes();
            let (a, b) = (find(&mut p, ns[0]), find(&mut p, ns[1]));
            if a == b {
                return false;
            }
            p[a] = b;
        }
    }
    // no unlimited diodes
    let src = p.clone();
    for e in els {
        if let D(a, b, _) = e {
            if a == b {
                continue;
            }
            let mut s = src.clone();
            let (x, y) = (find(&mut s, *a), find(&mut s, *b));
            if x == y {
                return false;
            }
        }
    }
    // every node tied to ground
    let mut r: Vec<usize> = (0..n).collect();
    for e in els {
        if matches!(e, R(..)) || e.has_branch() {
            let ns = e.nodes();
            let (a, b) = (find(&mut r, ns[0]), find(&mut r, ns[1]));
            r[a] = b;
        }
    }
    (1..n).all(|k| find(&mut r, k) == find(&mut r, 0))
}

fn run03(cx: &mut Cx) {
    let vt = impl_vt();
    cx.family("all sets of up to 4 elements on 3 nodes, 10 steps");
    let al = alphabet03(3, false);
    let c1 = tran_cfg(0.5, 10.0, 0.0);
    for len in 2..=cx.deep(3, 4, 5) {
        multisets(len, al.len(), &mut |ix| {
            let els = pick(&al, ix);
            if !well_posed_tran(&els) {
                return;
            }
            // dependent sources can make any small circuit unstable or singular at some timestep
            cx.case(&|| format!("{}\n{}", show(&els), cfg_desc(&c1)), &mut |c| {
                if els.iter().any(|e| matches!(e, E(..) | G(..))) && !stable(&els) {
                    c.skipped = true;
                    return Ok(());
                }
                check03(&els, &c1, vt, c)
            });
        });
    }

    cx.family("loaded nodes: all sequences of up to 3 elements on top of R and C at each node");
    let al = alphabet03(3, true);
    let base = vec![R(1, 0, 2.0), R(2, 0, 4.0), C(1, 0, 0.5), R(1, 2, 3.0)];
    for len in 1..=cx.deep(2, 3, 4) {
        tuples(len, al.len(), &mut |ix| {
            let mut els = pick(&al, ix);
            els.extend(base.iter().cloned());
            if !well_posed_tran(&els) {
                return;
            }
            cx.case(&|| format!("{}\n{}", show(&els), cfg_desc(&c1)), &mut |c| {
                if els.iter().any(|e| matches!(e, E(..) | G(..))) && !stable(&els) {
                    c.skipped = true;
                    return Ok(());
                }
                check03(&els, &c1, vt, c)
            });
        });
    }

    cx.family("elements with both ends on one node: all sets of up to 3 with others, on top of R and C at each node");
    let mut al = loops03(3);
    let nl = al.len();
    al.extend(alphabet03(3, false));
    for len in 1..=cx.deep(2, 3, 4) {
        multisets(len, al.len(), &mut |ix| {
            let mut els = pick(&al, ix);
            els.extend(base.iter().cloned());
            if ix[0] >= nl || !well_posed_tran(&els) {
                return;
            }
            cx.case(&|| format!("{}\n{}", show(&els), cfg_desc(&c1)), &mut |c| {
                if els.iter().any(|e| matches!(e, E(..) | G(..))) && !stable(&els) {
                    c.skipped = true;
                    return Ok(());
                }
                check03(&els, &c1, vt, c)
            });
        });
    }

    cx.family("time scales and timestep settings");
    for (k, base) in circuits().iter().enumerate() {
        for scale in [1e-18, 1e-15, 1e-13, 1e-12, 1e-10, 1e-9, 1e-6, 1e-3, 1.0, 1e3, 1e6, 1e9] {
            let els: Vec<El> = base.iter().map(|e| time_scale(e, scale)).collect();
            for (tstep, tstop) in [(0.5, 10.0), (0.1, 30.0), (2.0, 25.0), (0.3, 7.7), (0.05, 3.0)] {
                for rmax in [0.1, 0.5, 1.0, 5.0, 20.0] {
                    for fs in [0.25, 1.0, 0.01] {
                        for itl3 in [0, 3, 6, 100] {
                            let mut cf = tran_cfg(tstep * scale, tstop * scale, 0.0);
                            cf.RMAX = rmax;
                            cf.FS = fs;
                            cf.ITL3 = itl3;
                            if scale != 1.0 && !(cx.thorough() || (fs == 0.25 && itl3 == 6 && rmax >= 1.0)) {
                                continue;
                            }
                            cx.case(&|| format!("circuit {}\n{}\n{}", k, show(&els), cfg_desc(&cf)), &mut |c| check03(&els, &cf, vt, c));
                        }
                    }
                }
            }
        }
    }

    cx.family("long runs");
    for (k, els) in circuits().iter().enumerate() {
        for tstop in [500.0, 1234.5] {
            let mut cf = tran_cfg(0.5, tstop, 0.0);
            cf.RMAX = 1.0;
            cx.case(&|| format!("circuit {}\n{}\n{}", k, show(els), cfg_desc(&cf)), &mut |c| check03(els, &cf, vt, c));
        }
    }

    cx.family("runs of very many steps");
    for (k, els) in circuits().iter().enumerate() {
        for (tstep, tstop, rmax) in cx.by(
            vec![(0.5, 2200.25, 1.0), (2.0, 9000.0, 2.0)],
            vec![(0.5, 2200.25, 1.0), (2.0, 9000.0, 2.0), (0.5, 5200.25, 1.0), (0.125, 1100.0, 1.0), (0.001, 10.0, 1.0)],
        ) {
            let mut cf = tran_cfg(tstep, tstop, 0.0);
            cf.RMAX = rmax;
            cx.case(&|| format!("circuit {}\n{}\n{}", k, show(els), cfg_desc(&cf)), &mut |c| check03(els, &cf, vt, c));
        }
    }
    // more steps than 16 bits can count
    for els in [
        vec![Vs(1, 0, [0.5, 2.0, 0.01]), R(1, 2, 1.0), C(2, 0, 1.0)],
        vec![Is(0, 1, [0.1, 1.0, 0.02]), R(1, 0, 2.0), C(1, 0, 5.0), C(0, 1, 1.0)],
    ] {
        for n in cx.by(vec![66_000], vec![66_000, 132_000, 263_000]) {
            let mut cf = tran_cfg(0.25, 0.25 * n as f64, 0.0);
            cf.RMAX = 1.0;
            cx.case(&|| format!("{} steps\n{}\n{}", n, show(&els), cfg_desc(&cf)), &mut |c| check03(&els, &cf, vt, c));
        }
    }

    cx.family("many capacitors, sources and diodes in one circuit");
    for n in 1..=cx.deep(12, 30, 60) {
        for kind in 0..4 {
            let mut els = vec![];
            for k in 1..=n {
                match kind {
                    0 => els.extend([Vs(2 * k - 1, if k == 1 { 0 } else { 2 * k - 3 }, [0.1, 1.0, 0.01 * k as f64]), R(2 * k - 1, 2 * k, 1.0), C(2 * k, 0, 1.0 / k as f64)]),
                    1 => els.extend([R(k, k - 1, 1.0), C(k, 0, 0.1 * k as f64), Is(0, k, [0.0, 0.1, 0.02 * k as f64])]),
                    2 => els.extend([Vp(2 * k - 1, 0, pulse(k as f64)), R(2 * k - 1, 2 * k, 1.0), D(2 * k, 0, 1e-9), C(0, 2 * k, 1.0)]),
                    _ => els.extend([E(2 * k - 1, 0, if k == 1 { 0 } else { 2 * k - 2 }, 0, -1.0), R(2 * k - 1, 2 * k, 1.0), C(2 * k, 0, 0.3), I(0, 2 * k, 0.1)]),
                }
            }
            cx.case(&|| format!("{}\n{}", show(&els), cfg_desc(&c1)), &mut |c| check03(&els, &c1, vt, c));
        }
    }

    cx.family("timesteps that are reduced and tried again");
    for (k, els) in circuits().iter().chain(struggles().iter()).enumerate() {
        for itl4 in cx.by(vec![2usize, 3, 4, 6], vec![1usize, 2, 3, 4, 5, 6, 8, 12]) {
            for ft in cx.by(vec![0.25, 0.6], vec![0.25, 0.5, 0.6, 0.9]) {
                for tstep in cx.by(vec![0.5, 3.0], vec![0.1, 0.5, 1.0, 3.0]) {
                    for itl3 in [3usize, 6] {
                        let mut cf = tran_cfg(tstep, 12.0, 0.0);
                        cf.ITL4 = itl4;
                        cf.ITL3 = itl3;
                        cf.FT = ft;
                        cx.case(&|| format!("circuit {}\n{}\n{}", k, show(els), cfg_desc(&cf)), &mut |c| {
                            let ckt = build(els);
                            if !run_dc(&ckt, &cf).accepted(&cf) {
                                c.skipped = true;
                                return Ok(());
                            }
                            let r = run_tran(&ckt, &cf)?;
                            c.validated();
                            c.saw(&(r.wave.rows.len(), r.end == cf.TSTOP));
                            check_rows(els, &r.wave, &branch_in_order(els), &cf, vt, c)
                        });
                    }
                }
            }
        }
    }

    cx.family("through the reader, capacitors and sources of every kind");
    for (k, els) in circuits().iter().enumerate() {
        for (ctl, tstart) in [("tran 0.5 10", 0.0), ("tran 500m 10 0", 0.0), ("tran 250m 5", 0.0)] {
            cx.case(&|| format!("circuit {}\n{}", k, deck(els, ctl)), &mut |c| {
                let (ckt, cf) = read_deck(&deck(els, ctl))?;
                if cf.TSTART != tstart {
                    return Err("TSTART".to_string());
                }
                let r = run_tran(&ckt, &cf)?;
                c.validated();
                check_named(els, &ckt, &r.wave, &cf, vt, c)
            });
        }
    }

    cx.family("the decks that come with the simulator, and those with one value another one");
    for sh in shipped::all() {
        let (step, stop) = match sh.tran {
            Some((a, b)) if a > 0.0 => (a, b.min(a * cx.by(400.0, 4000.0))),
            _ => (1e-5, 2e-3),
        };
        let must = sh.name != "test_reader.spi"; // has nodes without a path to ground
        cx.case(&|| format!("{} for {:e}", sh.name, stop), &mut |c| check_shipped(&sh.plain(), &sh.deck, (step, stop), must, c));
        for (k, e) in shipped::revalued(&sh.deck, &|_, v| vec![v * 3.0, v * 0.1, -v]).into_iter().enumerate() {
            cx.case(&|| format!("{} edited ({}), for {:e}\n{}", sh.name, k, stop * 0.25, e.text()), &mut |c| check_shipped(&e.text(), &e, (step, stop * 0.25), false, c));
        }
    }
}

/// Simulate a deck for a number of steps of the one it asks for
fn check_shipped(text: &str, d: &Deck, tran: (f64, f64), must: bool, c: &mut Case) -> Result<(), String> {
    let f = flatten(d)?;
    let (ckt, mut cf) = read_deck(text)?;
    cf.set_transient(tran.1, tran.0, 0.0);
    cf.set_wavefile("w/t.dat");
    let map = compare(&f, &ckt)?;
    let (els, used) = to_els(&f)?;
    let br = branches(&f, &map, &ckt)?;
    let dc = run_dc(&ckt, &cf);
    if !dc.accepted(&cf) {
        c.skipped = !must;
        return if must { Err("the operating point wasn't found".to_string()) } else { Ok(()) };
    }
    let r = run_tran(&ckt, &cf)?;
    c.validated();
    if must && r.end != cf.TSTOP {
        return Err(format!("the analysis gave up at {:e}, before TSTOP {:e}", r.end, cf.TSTOP));
    }
    if r.wave.rows.first().map(|x| &x.1) != Some(&dc.x) {
        return Err(format!("first row {:?} is not the DC operating point {:?}", r.wave.rows.first(), dc.x));
    }
    let w = in_order(&r.wave.rows, &used, &map, &br);
    let order: Vec<usize> = (0..br.len()).collect();
    check_rows(&els, &w, &order, &cf, impl_vt(), c)?;
    if r.end == cf.TSTOP {
        check_times(&w, &cf, r.end)?;
    }
    let q: Vec<i64> = r.x.iter().map(|v| (v * 1e6).round() as i64).collect();
    c.saw(&(w.rows.len(), r.end == cf.TSTOP, q));
    Ok(())
}

/// Rows of a deck simulation: find the columns by name
pub fn check_named(els: &[El], ckt: &Circuit, w: &Wave, cf: &Configuration, vt: f64, c: &mut Case) -> Result<(), String> {
    let nn = n_nodes(els);
    let mut col = vec![];
    for n in 0..nn {
        let want = if n == 0 { "v(gnd)".to_string() } else { format!("v({})", node_name(n)) };
        let k = w.names.iter().position(|x| *x == want).ok_or(format!("no column {} in {:?}", want, w.names))?;
        col.push(k - 1);
    }
    let order = deck_branches(els, ckt)?;
    let nb = order.len();
    for b in 0..nb {
        let want = format!("i({})", b);
        let k = w.names.iter().position(|x| *x == want).ok_or(format!("no column {}", want))?;
        col.push(k - 1);
    }
    let rows = w.rows.iter().map(|(t, x)| (*t, col.iter().map(|k| x[*k]).collect())).collect();
    let w2 = Wave { names: w.names.clone(), units: w.units.clone(), rows };
    check_rows(els, &w2, &order, cf, vt, c)?;
    check_times(&w2, cf, w2.rows.last().map_or(0.0, |r| r.0))
}

/// Slow a circuit down by a factor: same voltages at scaled times
fn time_scale(e: &El, s: f64) -> El {
    match e {
        C(a, b, v) => C(*a, *b, v * s),
        Vs(a, b, p) => Vs(*a, *b, [p[0], p[1], p[2] / s]),
        Is(a, b, p) => Is(*a, *b, [p[0], p[1], p[2] / s]),
        Vp(a, b, p) => Vp(*a, *b, PwlSpec { pat: p.pat.iter().map(|(t, v)| (t * s, *v)).collect(), td: p.td * s, rep: p.rep }),
        e => e.clone(),
    }
}

/// Linear circuits with controlled sources: bounded solutions of the discretised equations at
/// every step (small gains keep things passive, so only weed out the singular ones)
fn stable(els: &[El]) -> bool {
    let has_d = els.iter().any(|e| matches!(e, D(..)));
    // sum of control gains below one, and a resistor wherever a VCCS drives: conservative
    let g: f64 = els.iter().map(|e| if let G(_, _, _, _, k) = e { k.abs() } else { 0.0 }).sum();
    let e: f64 = els.iter().map(|e| if let E(_, _, _, _, k) = e { k.abs() } else { 0.0 }).sum();
    let rmin: f64 = els.iter().map(|e| if let R(_, _, r) = e { 1.0 / r } else { 0.0 }).fold(f64::INFINITY, |m, v| if v > 0.0 { m.min(v) } else { m });
    !has_d && e < 1.0 && (g == 0.0 || (rmin.is_finite() && g < rmin * (1.0 - e)))
}

fn run04(cx: &mut Cx) {
    cx.family("grid of stop times, steps, start times, RMAX, FS and ITL3");
    let cs = circuits();
    let tsteps: &[f64] = cx.by(&[1.0, 0.3, 0.7], &[1.0, 0.3, 0.7, 0.1, 1e-2]);
    let stops: &[f64] = cx.by(&[0.5, 1.0, 3.0, 7.0, 10.0, 12.34, 60.0], &[0.2, 0.25, 0.5, 1.0, 1.1, 3.0, 7.0, 10.0, 12.34, 33.3, 60.0, 100.0]);
    let starts: &[f64] = &[0.0, 0.1, 1.0, 5.0, 9.99, 10.0, 100.0];
    for (k, els) in cs.iter().enumerate() {
        for ts in tsteps {
            for stop in stops {
                for rmax in [0.1, 0.25, 0.5, 1.0, 2.0, 5.0, 50.0] {
                    for fs in [0.25, 1.0, 0.001, 2.0] {
                        for itl3 in cx.by(vec![0usize, 2, 6], vec![0usize, 2, 6, 50]) {
                            let mut cf = tran_cfg(*ts, *stop, 0.0);
                            cf.RMAX = rmax;
                            cf.FS = fs;
                            cf.ITL3 = itl3;
                            let n_est = stop / (ts * rmax.min(if itl3 <= 2 { fs } else { rmax }));
                            if n_est > cx.by(400.0, 3000.0) {
                                continue;
                            }
                            cx.case(&|| format!("circuit {}\n{}\n{}\nwith each TSTART of {:?}", k, show(els), cfg_desc(&cf), starts), &mut |c| {
                                check04(els, &cf, starts, c)
                            });
                        }
                    }
                }
            }
        }
    }
    cx.family("stop times just before and just after the end of a step");
    for (k, els) in cs.iter().enumerate() {
        for ts in [1.0, 0.3, 1e-6] {
            for (rmax, fs, itl3) in [(1.0, 1.0, 6usize), (1.0, 0.25, 6), (0.25, 1.0, 0), (5.0, 0.01, 6), (0.5, 0.5, 3)] {
                for n in [1u32, 2, 3, 5, 10, 30] {
                    for part in [1e-12, 1e-9, 1e-7, 1e-6, 2.5e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.3, 0.5] {
                        for sign in [-1.0, 1.0] {
                            let scale = if ts < 1e-3 { ts } else { 1.0 };
                            let els: Vec<El> = els.iter().map(|x| time_scale(x, scale)).collect();
                            let mut cf = tran_cfg(ts, ts * rmax * (f64::from(n) + sign * part), 0.0);
                            cf.RMAX = rmax;
                            cf.FS = fs;
                            cf.ITL3 = itl3;
                            cx.case(&|| format!("circuit {}\n{}\n{}", k, show(&els), cfg_desc(&cf)), &mut |c| check04(&els, &cf, &[cf.TSTOP * 0.5], c));
                        }
                    }
                }
            }
        }
    }
    cx.family("runs of very many steps");
    for (k, els) in cs.iter().enumerate() {
        for n in cx.by(vec![300, 5000, 20_000], vec![300, 5000, 20_000, 66_000, 132_000]) {
            if n == 132_000 && k > 1 {
                continue;
            }
            for (ts, rmax) in [(0.5, 1.0), (0.1, 2.0)] {
                let mut cf = tran_cfg(ts, ts * rmax * (f64::from(n) + 0.4), 0.0);
                cf.RMAX = rmax;
                cx.case(&|| format!("circuit {}\n{}\n{}", k, show(els), cfg_desc(&cf)), &mut |c| check04(els, &cf, &[cf.TSTOP * 0.5, cf.TSTOP * 0.999], c));
            }
        }
    }
    cx.family("time scales from as to Gs");
    for (k, els) in cs.iter().enumerate() {
        for e in -18..=9 {
            let s = 10f64.powi(e);
            for m in [1.0, 3.0, 7.0] {
                for stop in [10.0, 33.0, 99.9, 100.0, 1000.0] {
                    let els: Vec<El> = els.iter().map(|x| time_scale(x, s)).collect();
                    let cf = tran_cfg(m * s, m * stop * s, 0.0);
                    cx.case(&|| format!("circuit {}\n{}\n{}", k, show(&els), cfg_desc(&cf)), &mut |c| {
                        check04(&els, &cf, &[m * s * 3.0, m * s * 9.5], c)
                    });
                }
            }
        }
    }
    cx.family("through the reader: tran step stop [start]");
    for (a, step) in [("1u", 1e-6), ("10ns", 1e-8), ("0.5ms", 0.5e-3), ("2", 2.0), ("1e-5", 1e-5)] {
        for ratio in [1u32, 2, 5, 10, 33, 100, 1000] {
            for start in ["", "0", "some"] {
                let stop = step * f64::from(ratio);
                let st = match start {
                    "some" => format!("{:e}", stop / 2.0),
                    s => s.to_string(),
                };
                let text = format!("t\nV1 a 0 SIN(0 1 {:e})\nR1 a b 1k\nC1 b 0 {:e}\n.control\ntran {} {:e} {}\n.endc\n", 0.3 / stop, stop / 3000.0, a, stop, st);
                cx.case(&|| text.clone(), &mut |c| {
                    let (ckt, cf) = read_deck(&text)?;
                    if !close(cf.TSTEP, step, 1e-15, 0.0) || cf.TSTOP != format!("{:e}", stop).parse::<f64>().unwrap_or(0.0) {
                        return Err(format!("tran read as {} {}", cf.TSTEP, cf.TSTOP));
                    }
                    let r = run_tran(&ckt, &cf)?;
                    c.validated();
                    c.steps(r.wave.rows.len());
                    c.saw(&r.wave.rows.len());
                    check_times(&r.wave, &cf, r.end)
                });
            }
        }
    }
}

fn check04(els: &[El], cf: &Configuration, starts: &[f64], c: &mut Case) -> Result<(), String> {
    let ckt = build(els);
    let full = run_tran(&ckt, cf)?;
    c.validated();
    c.steps(full.wave.rows.len());
    c.saw(&(full.wave.rows.len(), full.iterations));
    check_times(&full.wave, cf, full.end)?;
    for s in starts {
        if *s == 0.0 {
            continue;
        }
        let mut cs = cf.clone();
        cs.TSTART = *s;
        let r = run_tran(&ckt, &cs)?;
        c.steps(r.wave.rows.len());
        if r.end != full.end || r.iterations != full.iterations {
            return Err(format!("TSTART={} changes the simulation: ends at {} after {} iterations, not {} after {}", s, r.end, r.iterations, full.end, full.iterations));
        }
        let want: Vec<_> = full.wave.rows.iter().enumerate().filter(|(k, row)| *k == 0 || row.0 >= *s).map(|(_, r)| r.clone()).collect();
        if r.wave.rows != want {
            return Err(format!("TSTART={}: rows at {:?}, expected {:?}", s,
                r.wave.rows.iter().map(|r| r.0).collect::<Vec<_>>(), want.iter().map(|r| r.0).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

/// Circuits which are hard for Newton's method
fn struggles() -> Vec<Vec<El>> {
    vec![
        // circuits that jump: hard for Newton
        vec![Vp(1, 0, PwlSpec { pat: vec![(0.0, 0.0), (1.0, 0.0), (1.0, 20.0), (2.0, 20.0), (2.0, -20.0), (3.0, -20.0)], td: 0.0, rep: true }), R(1, 2, 1.0), D(2, 3, 1e-9), R(3, 0, 1.0), D(3, 0, 1e-12), C(3, 0, 0.01)],
        // a current source into an ideal switch-off: no solution after 1 s
        vec![Is(0, 1, [0.0, 1.0, 0.25]), D(1, 0, 1e-9), R(1, 0, 1e6), C(1, 0, 1e-3)],
        // negative resistance: no solution or runaway at some point
        vec![Vp(1, 0, PwlSpec { pat: vec![(0.0, 0.0), (10.0, 30.0)], td: 0.0, rep: false }), R(1, 2, 1.0), D(2, 3, 1e-9), G(3, 0, 0, 3, 1.0), R(3, 0, 1.0), C(3, 0, 0.1)],
        vec![Vs(1, 0, [0.0, 10.0, 0.1]), R(1, 2, 0.5), D(2, 0, 1e-9), D(0, 2, 1e-9), E(3, 0, 2, 0, 30.0), R(3, 4, 1.0), D(4, 0, 1e-9), C(4, 0, 0.05)],
        // singular while running: the capacitor companion cancels a negative resistance for one timestep
        vec![I(0, 1, 1.0), R(1, 0, 1.0), C(1, 2, 1.0), R(2, 0, -1.0), R(1, 2, 1.0)],
    ]
}

fn run21(cx: &mut Cx) {
    let vt = impl_vt();
    let mut cs = circuits();
    cs.extend(struggles());
    cx.family("iteration limits and step factors x circuits that struggle");
    for (k, els) in cs.iter().enumerate() {
        for itl4 in cx.by(vec![1usize, 2, 3, 4, 5, 7, 50], vec![1usize, 2, 3, 4, 5, 6, 7, 8, 10, 15, 25, 50]) {
            for ft in [0.25, 0.5, 0.9, 0.01] {
                for rmin in [1e-3, 0.2, 1.0, 0.01] {
                    for itl3 in [0usize, 3, 6] {
                        // a run which takes the smallest step all the way is long, not wrong
                        if itl3 == 0 && rmin < 0.1 {
                            continue;
                        }
                        if !cx.thorough() && ft == 0.9 && rmin == 0.01 {
                            continue;
                        }
                        for tstep in [0.5, 0.11] {
                            for reltol in cx.by(vec![1e-4], vec![1e-4, 1e-7]) {
                                let mut cf = tran_cfg(tstep, 12.0, 0.0);
                                cf.ITL4 = itl4;
                                cf.FT = ft;
                                cf.RMIN = rmin;
                                cf.ITL3 = itl3;
                                cf.RELTOL = reltol;
                                cx.case(&|| format!("circuit {}\n{}\n{}", k, show(els), cfg_desc(&cf)), &mut |c| check21(els, &cf, vt, c));
                            }
                        }
                    }
                }
            }
        }
    }

    cx.family("the default settings: circuits that only have a solution when the timestep is small enough");
    for g in [0.5, 1.0, 3.0] {
        for r in [10.0, 100.0] {
            for c in [0.01, 0.1, 1.0] {
                for v in [-5.0, -20.0, -300.0, 30.0] {
                    for tstep in cx.by(vec![0.5, 0.2], vec![0.5, 0.2, 0.1, 0.05, 1.0, 2.0]) {
                        // there is a solution for steps below this, which have to be among those
                        // that are tried
                        if c / (g - 1.0 / r) < 5.0 * 1e-3 * tstep {
                            continue;
                        }
                        for is in [1e-9, 1e-12] {
                            // no current at the start, then more than a negative conductance and a
                            // diode will take, other than for a while
                            let els = vec![
                                Vp(1, 0, PwlSpec { pat: vec![(0.0, 0.0), (0.3, 0.0), (0.3, v), (20.0, v)], td: 0.0, rep: false }),
                                R(1, 2, r),
                                D(2, 0, is),
                                G(0, 2, 2, 0, g),
                                C(2, 0, c),
                            ];
                            let mut cf = Configuration::new();
                            cf.set_transient(1.2, tstep, 0.0);
                            cf.set_wavefile("w/t.dat");
                            cx.case(&|| format!("{}\ndefault settings, TSTEP={} TSTOP=1.2", show(&els), tstep), &mut |c| check_default(&els, &cf, vt, c));
                        }
                    }
                }
            }
        }
    }

    cx.family("jumps late in a long analysis: the smallest step is less than the time can resolve");
    for (k, els) in late_jumps().iter().enumerate() {
        for tstep in [1e-9, 1e-12, 1e-14, 1e-15, 1e-18, 1e-30] {
            for itl4 in [1usize, 2, 3, 4, 5, 7, 50] {
                for ft in [0.25, 0.9, 0.01] {
                    for itl3 in [3usize, 6] {
                        for rmin in [1e-3, 1e-9] {
                            let mut cf = tran_cfg(tstep, 12.0, 0.0);
                            cf.RMAX = 0.3 / tstep;
                            cf.ITL4 = itl4;
                            cf.FT = ft;
                            cf.ITL3 = itl3;
                            cf.RMIN = rmin;
                            cx.case(&|| format!("circuit {}\n{}\n{}", k, show(els), cfg_desc(&cf)), &mut |c| check_late(els, &cf, c));
                        }
                    }
                }
            }
        }
    }

    cx.family("no operating point: all sets of up to 4 elements on 3 nodes whose DC equations are singular, contradictory or too hard");
    let mut al = vec![];
    for (a, b) in unordered_pairs(3) {
        al.extend([R(a, b, 2.0), C(a, b, 1.0), V(a, b, 1.0), Vs(a, b, [0.5, 2.0, 0.11]), I(a, b, 0.5), D(a, b, 1e-9), D(b, a, 1e-9)]);
    }
    for len in 1..=cx.by(3, 4) {
        for itl1 in [50, 2] {
            let mut cf = tran_cfg(0.5, 3.0, 0.0);
            cf.ITL1 = itl1;
            multisets(len, al.len(), &mut |ix| {
                let els = pick(&al, ix);
                if !contiguous(&els) || els.iter().any(|e| e.degenerate()) {
                    return;
                }
                cx.case(&|| format!("{}\n{} ITL1={}", show(&els), cfg_desc(&cf), itl1), &mut |c| check_nowhere(&els, &cf, vt, c));
            });
        }
    }
}

fn check21(els: &[El], cf: &Configuration, vt: f64, c: &mut Case) -> Result<(), String> {
    let ckt = build(els);
    let dc = run_dc(&ckt, cf);
    if !dc.accepted(cf) {
        c.skipped = true;
        return Ok(());
    }
    let r = run_tran(&ckt, cf)?;
    c.validated();
    check_rows(els, &r.wave, &branch_in_order(els), cf, vt, c)?;
    let last = r.wave.rows[r.wave.rows.len() - 1].0;
    if r.end != last {
        return Err(format!("reported end {:e} is not the time of the last row {:e}", r.end, last));
    }
    let done = r.end == cf.TSTOP;
    if done {
        check_times(&r.wave, cf, r.end)?;
    } else if r.end > cf.TSTOP {
        return Err(format!("ended at {:e}, after TSTOP", r.end));
    }
    // how far the steps were cut: never below RMIN*TSTEP, apart from the one that lands on TSTOP
    // and the one the simulation started with
    let first = cf.TSTEP * cf.FS.min(cf.RMAX);
    let floor = (cf.RMIN * cf.TSTEP).min(first);
    let n = r.wave.rows.len();
    for k in 1..n {
        let dt = r.wave.rows[k].0 - r.wave.rows[k - 1].0;
        if !(dt > 0.0) {
            return Err(format!("time doesn't advance at row {}", k));
        }
        if dt < floor * (1.0 - 1e-6) && !(done && k == n - 1) {
            return Err(format!("step of {:e} at row {} is below RMIN*TSTEP={:e}", dt, k, floor));
        }
    }
    check_control(&r.wave, cf, done, r.iterations as i64 - dc.iterations as i64, well_conditioned(els))?;
    c.saw(&(n, done, r.iterations));
    Ok(())
}

/// Circuits with a jump after 7 s
fn late_jumps() -> Vec<Vec<El>> {
    let jump = |v: f64| Vp(1, 0, PwlSpec { pat: vec![(0.0, 0.1), (7.0, 0.1), (7.0, v), (20.0, v)], td: 0.0, rep: false });
    vec![
        vec![jump(20.0), R(1, 2, 1.0), D(2, 0, 1e-9)],
        vec![jump(1e6), R(1, 2, 1.0), D(2, 3, 1e-9), D(3, 0, 1e-9), R(3, 0, 1e3), C(3, 0, 0.1)],
        vec![jump(-300.0), R(1, 2, 10.0), D(2, 0, 1e-9), G(0, 2, 2, 0, 1.0), C(2, 0, 0.1)],
        vec![jump(30.0), R(1, 2, 0.5), D(2, 0, 1e-9), D(0, 2, 1e-9), E(3, 0, 2, 0, 30.0), R(3, 4, 1.0), D(4, 0, 1e-9), C(4, 0, 0.05)],
        // there's no operating point for this after the jump
        vec![jump(-20.0), R(1, 2, 10.0), D(2, 0, 1e-9), G(0, 2, 2, 0, 1.0)],
    ]
}

/// It ends, and the time goes forward until then
fn check_late(els: &[El], cf: &Configuration, c: &mut Case) -> Result<(), String> {
    let ckt = build(els);
    if !run_dc(&ckt, cf).accepted(cf) {
        c.skipped = true;
        return Ok(());
    }
    let r = run_tran(&ckt, cf)?;
    c.validated();
    c.steps(r.wave.rows.len());
    let n = r.wave.rows.len();
    c.saw(&(n, r.iterations, r.end == cf.TSTOP));
    for k in 1..n {
        if !(r.wave.rows[k].0 > r.wave.rows[k - 1].0) {
            return Err(format!("time goes from {:e} to {:e} at row {}", r.wave.rows[k - 1].0, r.wave.rows[k].0, k));
        }
    }
    if r.end == cf.TSTOP {
        return check_times(&r.wave, cf, r.end);
    }
    if n == 0 || r.end != r.wave.rows[n - 1].0 || r.end > cf.TSTOP {
        return Err(format!("ended at {:e}, {} rows", r.end, n));
    }
    Ok(())
}

/// When a timestep has no solution a smaller one is tried, and with the default settings there are
/// smaller ones to try: these circuits have a solution for all timesteps below TSTEP/200
fn check_default(els: &[El], cf: &Configuration, vt: f64, c: &mut Case) -> Result<(), String> {
    check21(els, cf, vt, c)?;
    if c.skipped {
        return Err("no operating point, though nothing is on yet".to_string());
    }
    let r = run_tran(&build(els), cf)?;
    if r.end != cf.TSTOP {
        return Err(format!("gave up at {:e} after {} iterations, without having tried what there is a solution for", r.end, r.iterations));
    }
    Ok(())
}

/// No way to get a non-finite value out of these
fn well_conditioned(els: &[El]) -> bool {
    els.iter().all(|e| match e {
        E(..) | G(..) => false,
        R(_, _, r) => *r > 0.0,
        _ => true,
    })
}

/// The rows and the iteration count must be explained by a path through the step controller:
/// a step that takes less than ITL3 iterations at the first attempt doubles the next one, up to
/// RMAX*TSTEP; an attempt that fails takes ITL4 iterations and is made again with FT times the
/// step; the analysis is over at TSTOP or when a step gets smaller than RMIN*TSTEP.
/// How many iterations an attempt takes is left open, so this is a reachability question: the
/// set of (candidate step, iterations so far) states after each row.
fn check_control(w: &Wave, cf: &Configuration, done: bool, iters: i64, finite: bool) -> Result<(), String> {
    let dmax = cf.TSTEP * cf.RMAX;
    let floor = cf.TSTEP * cf.RMIN;
    let itl3 = cf.ITL3 as i64;
    let itl4 = (cf.ITL4 as i64).max(1);
    // candidate step, least and most iterations so far
    let mut states: Vec<(f64, i64, i64)> = vec![(cf.TSTEP * cf.FS.min(cf.RMAX), 0, 0)];
    let land = |t: f64, d: f64| if t + d + d * 1e-6 >= cf.TSTOP { cf.TSTOP - t } else { d };
    for k in 1..w.rows.len() {
        let (t0, t1) = (w.rows[k - 1].0, w.rows[k].0);
        let dt = t1 - t0;
        let mut next: Vec<(f64, i64, i64)> = vec![];
        let mut add = |s: (f64, i64, i64)| match next.iter_mut().find(|n| (n.0 - s.0).abs() <= 1e-9 * s.0) {
            Some(n) => {
                n.1 = n.1.min(s.1);
                n.2 = n.2.max(s.2);
            }
            None => next.push(s),
        };
        for (cand, lo, hi) in &states {
            let mut d = land(t0, *cand);
            let mut j = 0;
            while d > dt * (1.0 - 1e-7) - 1e-14 * t1 {
                if (d - dt).abs() <= 1e-7 * dt + 1e-14 * t1 {
                    if j == 0 {
                        if itl3 >= 2 {
                            add(((2.0 * d).min(dmax), lo + 1, hi + (itl3 - 1).min(itl4)));
                        }
                        if itl4 >= itl3 {
                            add((d, lo + itl3.max(1), hi + itl4));
                        }
                    } else {
                        add((d, lo + j * itl4 + 1, hi + (j + 1) * itl4));
                    }
                }
                d *= cf.FT;
                j += 1;
                if d < floor {
                    break;
                }
            }
        }
        if next.is_empty() {
            return Err(format!("step of {:e} at row {}: the step control can only get here with one of {:?} times a power of FT", dt, k, states.iter().map(|s| s.0).collect::<Vec<_>>()));
        }
        states = next;
    }
    let t = w.rows[w.rows.len() - 1].0;
    let ok = states.iter().any(|(cand, lo, hi)| {
        if done {
            return *lo <= iters && iters <= *hi;
        }
        if !finite {
            return *lo <= iters;
        }
        let mut d = land(t, *cand);
        let mut j = 0;
        loop {
            j += 1;
            d *= cf.FT;
            if d < floor {
                break;
            }
        }
        lo + j * itl4 <= iters && iters <= hi + j * itl4
    });
    if !ok {
        return Err(format!("{} iterations are not what {} rows take: {}{:?}", iters, w.rows.len(), if done { "" } else { "then giving up, after " }, states));
    }
    Ok(())
}

/// Nowhere to start from: no rows, and the end is not TSTOP
fn check_nowhere(els: &[El], cf: &Configuration, vt: f64, c: &mut Case) -> Result<(), String> {
    let ckt = build(els);
    let dc = run_dc(&ckt, cf);
    if dc.accepted(cf) {
        c.skipped = true;
        return Ok(());
    }
    let r = run_tran(&ckt, cf)?;
    c.validated();
    c.step();
    // found in the very last iteration or not at all? the iteration count doesn't say
    let perhaps = dc.iterations == cf.ITL1 + 1 && dc.x.iter().all(|v| v.is_finite());
    if r.end >= cf.TSTOP && !(perhaps && !r.wave.rows.is_empty()) {
        return Err(format!("reported to have reached {:e} without an operating point", r.end));
    }
    if !r.wave.rows.is_empty() {
        check_rows(els, &r.wave, &branch_in_order(els), cf, vt, c)?;
    }
    c.saw(&dc.iterations);
    Ok(())
}
