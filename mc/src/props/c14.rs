//! C14 convergence criterion
use super::util::*;
use crate::harness::*;
use crate::net::El::*;
use crate::net::*;
use tiny_spice::analysis::Configuration;
use tiny_spice::engine::Engine;

pub fn def() -> PropDef {
    PropDef {
        id: "C14",
        run,
        rule: "convergence_check on every vector of up to 4 (thorough 5) unknowns over an alphabet of (new, old) pairs on both sides of the tolerance, with infinities and NaNs, for every split into node voltages and branch currents and every setting of the tolerances; one and two of such pairs at every position of vectors of up to 132 unknowns; and the DC loop itself: the iterates of every circuit of an alphabet are extracted by cutting the analysis off after each iteration, and the iteration at which it stops is the one the criterion picks",
        hang_s: 20,
    }
}

/// An engine which has `nodes` nodes (with ground) and `srcs` voltage sources
#[cfg(not(feature = "no_convcheck"))]
fn engine(nodes: usize, srcs: usize) -> Engine {
    let mut els = vec![];
    for k in 1..nodes {
        els.push(R(k, 0, 1.0));
    }
    for k in 0..srcs {
        els.push(V(1 + k % (nodes - 1), 0, 1.0));
    }
    let mut e = Engine::new();
    e.dc_operating_point(&build(&els), &cfg());
    e
}

#[cfg(not(feature = "no_convcheck"))]
fn cfgs() -> Vec<Configuration> {
    let mut v = vec![];
    for rel in [1e-4, 1e-2, 1e-7] {
        for vn in [1e-6, 1e-2] {
            for ab in [1e-9, 1e-12, 0.1] {
                let mut c = cfg();
                c.RELTOL = rel;
                c.VNTOL = vn;
                c.ABSTOL = ab;
                v.push(c);
            }
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Verdict {
    Yes,
    No,
    Error,
    /// stale value isn't finite: anything but accepted
    NotYes,
    Unclear,
}

/// verdict on one unknown
fn one(x: f64, y: f64, rel: f64, ab: f64) -> Verdict {
    if !x.is_finite() {
        return Verdict::Error;
    }
    if !y.is_finite() {
        return Verdict::NotYes;
    }
    let d = (x - y).abs();
    // |v| could be the new or the old one
    let (a, b) = (x.abs() * rel + ab, y.abs() * rel + ab);
    let (lo, hi) = (a.min(b) * (1.0 - 1e-9), a.max(b) * (1.0 + 1e-9));
    if d <= lo {
        Verdict::Yes
    } else if d > hi {
        Verdict::No
    } else {
        Verdict::Unclear
    }
}

fn combine(vs: &[Verdict]) -> Verdict {
    for k in [Verdict::Error, Verdict::NotYes, Verdict::No, Verdict::Unclear] {
        if vs.contains(&k) {
            // either is fine if an unfinished unknown is next to a stale one
            return k;
        }
    }
    Verdict::Yes
}

#[cfg(not(feature = "no_convcheck"))]
fn pairs(vn: f64, ab: f64, rel: f64) -> Vec<(f64, f64)> {
    let mut v = vec![];
    for x in [0.0, 1.0, -5.0] {
        for scale in [vn, ab] {
            let lim = f64::abs(x) * rel + scale;
            for k in [0.99, -0.99, 1.02, -1.02] {
                v.push((x, x + k * lim));
            }
        }
        v.push((x, x));
        // a flipped sign
        v.push((x + 0.5, -x - 0.5));
    }
    v.push((1.0, 1e6));
    v.push((1e6, 1.0));
    for bad in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        v.push((bad, 1.0));
        v.push((1.0, bad));
        v.push((bad, bad));
    }
    v
}

/// The first and the last few are enough for long vectors
#[cfg(not(feature = "no_convcheck"))]
fn short_pairs(vn: f64, ab: f64, rel: f64) -> Vec<(f64, f64)> {
    let l = |x: f64, s: f64| x.abs() * rel + s;
    vec![
        (1.0, 1.0),
        (2.0, 2.0 + 0.99 * l(2.0, vn)),
        (-2.0, -2.0 - 1.02 * l(2.0, vn)),
        (2.0, 2.0 + 0.99 * l(2.0, ab)),
        (-2.0, -2.0 + 1.02 * l(2.0, ab)),
        (0.0, 0.99 * vn),
        (0.0, -1.02 * vn),
        (0.0, 0.99 * ab),
        (0.0, -1.02 * ab),
        (f64::NAN, 0.0),
        (0.0, f64::NAN),
        (f64::NEG_INFINITY, f64::NEG_INFINITY),
        (0.0, f64::INFINITY),
    ]
}

#[cfg(not(feature = "no_convcheck"))]
fn check_vec(e: &Engine, cf: &Configuration, nodes: usize, x: &[f64], y: &[f64], c: &mut Case) -> Result<(), String> {
    let vs: Vec<Verdict> = (0..x.len()).map(|i| one(x[i], y[i], cf.RELTOL, if i < nodes { cf.VNTOL } else { cf.ABSTOL })).collect();
    let want = combine(&vs);
    let got = e.convergence_check(x, y, cf);
    c.step();
    let ok = match (&want, &got) {
        (Verdict::Unclear, _) => true,
        (Verdict::Yes, Ok(true)) => true,
        (Verdict::No, Ok(false)) => true,
        (Verdict::Error, Err(_)) => true,
        (Verdict::NotYes, Ok(true)) => false,
        (Verdict::NotYes, _) => true,
        _ => false,
    };
    if ok {
        return Ok(());
    }
    let g = match got {
        Ok(b) => format!("{}", b),
        Err(_) => "an error".to_string(),
    };
    Err(format!("new {:?} old {:?} with {} nodes: {} but expected {:?}", x, y, nodes, g, want))
}

fn criterion(x: &[f64], y: &[f64], nodes: usize, cf: &Configuration) -> Verdict {
    combine(&(0..x.len()).map(|i| one(x[i], y[i], cf.RELTOL, if i < nodes { cf.VNTOL } else { cf.ABSTOL })).collect::<Vec<_>>())
}

/// The function that decides
#[cfg(not(feature = "no_convcheck"))]
fn run_direct(cx: &mut Cx) {
    // the settings are the configuration the analysis was started with *and* the one passed in
    let cfs = cfgs();
    cx.family("every vector over the pair alphabet");
    for nodes in 2..=4 {
        for srcs in 0..=2 {
            let n = nodes + srcs;
            for (ci, cf) in cfs.iter().enumerate() {
                let al = if n <= 3 { pairs(cf.VNTOL, cf.ABSTOL, cf.RELTOL) } else { short_pairs(cf.VNTOL, cf.ABSTOL, cf.RELTOL) };
                if n > cx.deep(4, 5, 6) {
                    continue;
                }
                for first in 0..al.len() {
                    cx.case(
                        &|| format!("{} nodes, {} sources, RELTOL={:e} VNTOL={:e} ABSTOL={:e}, first pair {:?}, all others", nodes, srcs, cf.RELTOL, cf.VNTOL, cf.ABSTOL, al[first]),
                        &mut |c| {
                            let e = engine(nodes, srcs);
                            let mut res = Ok(());
                            tuples(n - 1, al.len(), &mut |ix| {
                                if res.is_err() {
                                    return;
                                }
                                let mut x = vec![al[first].0];
                                let mut y = vec![al[first].1];
                                for k in ix {
                                    x.push(al[*k].0);
                                    y.push(al[*k].1);
                                }
                                res = check_vec(&e, cf, nodes, &x, &y, c);
                            });
                            c.saw(&(n, ci, first));
                            c.validated();
                            res
                        },
                    );
                }
            }
        }
    }

    cx.family("one unknown out of many");
    for (nodes, srcs) in [(2, 0), (2, 6), (9, 0), (9, 6), (20, 3), (101, 2), (130, 0)] {
        for (ci, cf) in cfs.iter().enumerate() {
            cx.case(&|| format!("{} nodes, {} sources, configuration {}, each pair at each position", nodes, srcs, ci), &mut |c| {
                let e = engine(nodes, srcs);
                for base in [0.0, 3.0] {
                    for at in 0..nodes + srcs {
                        for (a, b) in pairs(cf.VNTOL, cf.ABSTOL, cf.RELTOL) {
                            let mut x = vec![base; nodes + srcs];
                            let mut y = x.clone();
                            x[at] = a;
                            y[at] = b;
                            check_vec(&e, cf, nodes, &x, &y, c)?;
                        }
                    }
                }
                c.validated();
                c.saw(&(nodes, srcs, ci));
                Ok(())
            });
        }
    }

    cx.family("two unknowns out of many");
    for (nodes, srcs) in [(2, 6), (5, 2), (8, 0), (9, 6), (17, 4), (33, 0)] {
        for (ci, cf) in cfs.iter().enumerate() {
            for base in 0..4 {
                cx.case(
                    &|| format!("{} nodes, {} sources, RELTOL={:e} VNTOL={:e} ABSTOL={:e}, values {}, every two pairs at every two positions", nodes, srcs, cf.RELTOL, cf.VNTOL, cf.ABSTOL, base),
                    &mut |c| {
                        let e = engine(nodes, srcs);
                        let n = nodes + srcs;
                        let al = short_pairs(cf.VNTOL, cf.ABSTOL, cf.RELTOL);
                        // the others have converged; some of them are much larger
                        let rest: Vec<f64> = (0..n)
                            .map(|k| match base {
                                0 => 0.0,
                                1 => 3.0,
                                2 => [1e6, 0.0, -3.0, 1e-9][k % 4],
                                _ => [1e-9, -1e9][k % 2],
                            })
                            .collect();
                        for i in 0..n {
                            for j in i + 1..n {
                                for p in &al {
                                    for q in &al {
                                        let (mut x, mut y) = (rest.clone(), rest.clone());
                                        (x[i], y[i]) = *p;
                                        (x[j], y[j]) = *q;
                                        check_vec(&e, cf, nodes, &x, &y, c)?;
                                    }
                                }
                            }
                        }
                        c.validated();
                        c.saw(&(n, ci, base));
                        Ok(())
                    },
                );
            }
        }
    }
}

fn run(cx: &mut Cx) {
    #[cfg(not(feature = "no_convcheck"))]
    run_direct(cx);

    // the criterion as the DC analysis uses it
    cx.family("DC analysis stops at the iteration the criterion picks");
    let mut circuits: Vec<Vec<El>> = vec![
        vec![V(1, 0, 5.0), R(1, 2, 1e3), R(2, 0, 2e3)],
        vec![I(0, 1, 1e-3), R(1, 0, 1.0)],
        vec![V(1, 0, 1e-7), R(1, 0, 1e9)],
        vec![V(1, 0, 1e6), R(1, 2, 1e-3), R(2, 0, 1e-3)],
        vec![V(1, 0, 1.0), V(1, 0, 2.0), R(1, 0, 1.0)],
        vec![I(0, 1, 1.0), R(2, 0, 1.0), V(2, 0, 1.0)],
        vec![V(1, 0, 1.0), E(2, 0, 1, 0, 1e5), R(2, 0, 10.0), G(3, 0, 2, 0, 1e-3), R(3, 0, 1e3)],
    ];
    for v in [-50.0, -1.0, -1e-3, 1e-6, 0.05, 0.3, 0.6, 0.7, 0.9, 1.5, 5.0, 50.0] {
        for r in [1.0, 1e3, 1e6] {
            circuits.push(vec![V(1, 0, v), R(1, 2, r), D(2, 0, 1e-9)]);
            circuits.push(vec![V(1, 0, v), R(1, 2, r), D(2, 3, 1e-9), D(3, 0, 1e-12)]);
            circuits.push(vec![V(1, 0, v), D(1, 2, 1e-9), R(2, 0, r)]);
            circuits.push(vec![I(0, 1, v * 1e-3), R(1, 0, r), D(1, 0, 1e-9), D(0, 1, 1e-9)]);
            circuits.push(vec![V(1, 0, v), D(1, 2, 1e-9), D(3, 1, 1e-9), D(0, 2, 1e-9), D(3, 0, 1e-9), R(2, 3, r), R(3, 0, 1e5)]);
        }
    }
    let mut settings = vec![];
    for rel in cx.by(vec![1e-4, 1e-1, 1e-7], vec![1e-4, 1e-1, 1e-2, 1e-3, 1e-5, 1e-7, 1e-9]) {
        for vn in [1e-6, 0.05, 1e-9] {
            for ab in [1e-9, 1e-3, 1e-13] {
                settings.push((rel, vn, ab));
            }
        }
    }
    for els in &circuits {
        for (rel, vn, ab) in &settings {
            cx.case(&|| format!("{}\nRELTOL={:e} VNTOL={:e} ABSTOL={:e}", show(els), rel, vn, ab), &mut |c| {
                let mut cf = cfg();
                cf.RELTOL = *rel;
                cf.VNTOL = *vn;
                cf.ABSTOL = *ab;
                let ckt = build(els);
                let nodes = n_nodes(els);
                let linear = !els.iter().any(|e| matches!(e, D(..)));
                let full = run_dc(&ckt, &cf);
                let stop = full.iterations;
                if !full.accepted(&cf) {
                    // never accepted: fine if the circuit has no solution or is nonlinear
                    c.saw(&"not accepted");
                    c.step();
                    return Ok(());
                }
                // iterates: cut the analysis off after each iteration
                let mut xs: Vec<Vec<f64>> = vec![vec![0.0; full.x.len()]];
                let mut n = 0;
                while n < stop {
                    let mut short = cf.clone();
                    short.ITL1 = n;
                    let r = run_dc(&ckt, &short);
                    n = r.iterations;
                    if n != xs.len() {
                        // not cut off where expected: iterates can't be told apart
                        c.skipped = true;
                        return Ok(());
                    }
                    xs.push(r.x);
                    c.step();
                }
                c.validated();
                c.saw(&stop);
                match criterion(&xs[stop], &xs[stop - 1], nodes, &cf) {
                    Verdict::Yes | Verdict::Unclear => {}
                    v => return Err(format!("accepted after {} iterations, at {:?} coming from {:?}: {:?}", stop, xs[stop], xs[stop - 1], v)),
                }
                if linear {
                    for k in 1..stop {
                        if criterion(&xs[k], &xs[k - 1], nodes, &cf) == Verdict::Yes {
                            return Err(format!("converged at iteration {} but went on to {}", k, stop));
                        }
                    }
                }
                Ok(())
            });
        }
    }
}
