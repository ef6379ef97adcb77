//! C20 size
use super::c03::{run_tran, tran_cfg};
use super::util::*;
use crate::harness::*;
use crate::net::El::*;
use crate::net::*;
use std::path::Path;
use tiny_spice::circuit::Element;
use tiny_spice::analysis::Configuration;
use tiny_spice::circuit::Circuit;
use tiny_spice::engine::Engine;

pub fn def() -> PropDef {
    PropDef {
        id: "C20",
        run,
        rule: "every size from 1 up to a bound of families with closed-form solutions: ladders, stacks of sources, stars, parallel elements, chains of controlled sources, chains of diodes, instances side by side, nested definitions and trees of instances, long names and many parameters; built directly and read from decks; every node voltage and branch current compared",
        hang_s: 120,
    }
}

fn solve(els: &[El]) -> Result<(usize, Vec<f64>), String> {
    let ckt = build(els);
    let cf = cfg();
    let r = run_dc(&ckt, &cf);
    if !r.accepted(&cf) {
        return Err(format!("not solved ({} iterations)", r.iterations));
    }
    let nn = n_nodes(els);
    let nb = els.iter().filter(|e| e.has_branch()).count();
    if r.x.len() != nn + nb {
        return Err(format!("{} unknowns, expected {} nodes and {} branches", r.x.len(), nn, nb));
    }
    Ok((nn, r.x))
}

fn expect(got: f64, want: f64, what: &str, k: usize) -> Result<(), String> {
    if close(got, want, 1e-7, 1e-3) {
        Ok(())
    } else {
        Err(format!("{} {} is {:e}, expected {:e}", what, k, got, want))
    }
}

/// A family: circuit of size n and its node voltages and branch currents
type Family = (&'static str, fn(usize) -> (Vec<El>, Vec<f64>, Vec<f64>));

fn families() -> Vec<Family> {
    vec![
        // n resistors from 10 V down to ground
        ("divider", |n| {
            let mut els = vec![V(1, 0, 10.0)];
            for k in 1..n {
                els.push(R(k, k + 1, 100.0));
            }
            els.push(R(n, 0, 100.0));
            let v = (0..=n).map(|k| if k == 0 { 0.0 } else { 10.0 * (n + 1 - k) as f64 / n as f64 }).collect();
            (els, v, vec![-10.0 / (100.0 * n as f64)])
        }),
        // numbered the other way round
        ("divider from the bottom", |n| {
            let mut els = vec![];
            for k in 1..=n {
                els.push(R(k, k - 1, 5.0));
            }
            els.push(V(n, 0, 1.0));
            let v = (0..=n).map(|k| k as f64 / n as f64).collect();
            (els, v, vec![-1.0 / (5.0 * n as f64)])
        }),
        ("stack of sources", |n| {
            let mut els = vec![];
            for k in 1..=n {
                els.push(V(k, k - 1, 1.0));
            }
            els.push(R(n, 0, n as f64));
            ((els), (0..=n).map(|k| k as f64).collect(), vec![-1.0; n])
        }),
        ("sources side by side", |n| {
            let mut els = vec![];
            for k in 1..=n {
                els.push(V(k, 0, k as f64));
                els.push(R(k, 0, 2.0));
            }
            (els, (0..=n).map(|k| k as f64).collect(), (1..=n).map(|k| -(k as f64) / 2.0).collect())
        }),
        ("star", |n| {
            // n rays from a hub at node 1 to n sources of 1 and 3 V
            let mut els = vec![];
            let hub = if n % 2 == 0 { 2.0 } else { (n as f64 * 2.0 + 1.0) / n as f64 };
            let mut v = vec![0.0, hub];
            let mut i = vec![];
            for k in 0..n {
                let u = if k % 2 == 0 { 3.0 } else { 1.0 };
                els.push(R(1, k + 2, 10.0));
                els.push(V(k + 2, 0, u));
                v.push(u);
                i.push((hub - u) / 10.0);
            }
            (els, v, i)
        }),
        ("parallel resistors and current sources", |n| {
            let mut els = vec![];
            for _ in 0..n {
                els.push(I(0, 1, 1e-3));
                els.push(R(1, 0, 1e3));
            }
            (els, vec![0.0, 1.0], vec![])
        }),
        ("chain of VCVSs", |n| {
            let mut els = vec![V(1, 0, 1.0)];
            let mut v = vec![0.0, 1.0];
            for k in 1..=n {
                let g = if k % 2 == 0 { 0.5 } else { -2.0 };
                els.push(E(k + 1, 0, k, 0, g));
                v.push(v[k] * g);
            }
            (els, v, vec![0.0; n + 1])
        }),
        ("chain of VCCSs", |n| {
            let mut els = vec![I(0, 1, 1.0), R(1, 0, 1.0)];
            let mut v = vec![0.0, 1.0];
            for k in 1..=n {
                els.push(G(0, k + 1, k, 0, 0.1));
                els.push(R(k + 1, 0, if k % 2 == 0 { 20.0 } else { 5.0 }));
                v.push(v[k] * if k % 2 == 0 { 2.0 } else { 0.5 });
            }
            (els, v, vec![])
        }),
        ("current into a ladder", |n| {
            // R-2R ladder: terminated, looks like 2R/2 = R from everywhere
            let mut els = vec![];
            let mut v = vec![0.0; n + 1];
            els.push(R(n, 0, 2.0));
            for k in 1..=n {
                els.push(R(k, 0, 2.0));
                if k < n {
                    els.push(R(k, k + 1, 1.0));
                }
            }
            els.push(I(0, 1, 1.0));
            for (k, x) in v.iter_mut().enumerate().skip(1) {
                *x = 0.5f64.powi(k as i32 - 1);
            }
            (els, v, vec![])
        }),
        ("capacitors everywhere", |n| {
            let mut els = vec![V(1, 0, 2.0)];
            for k in 1..=n {
                els.push(R(k, k + 1, 1.0));
                els.push(C(k + 1, 0, 1.0));
                els.push(C(k + 1, k, 1.0));
            }
            (els, [vec![0.0], vec![2.0; n + 1]].concat(), vec![0.0])
        }),
    ]
}

fn check_direct(els: &[El], v: &[f64], i: &[f64], c: &mut Case) -> Result<(), String> {
    let (nn, x) = solve(els)?;
    if nn != v.len() {
        return Err(format!("test bug: {} nodes, {} voltages", nn, v.len()));
    }
    for k in 0..nn {
        expect(x[k], v[k], "voltage of node", k)?;
    }
    for k in 0..i.len() {
        expect(x[nn + k], i[k], "current of source", k)?;
    }
    c.steps(nn);
    c.validated();
    c.saw(&nn);
    Ok(())
}

/// The same through a deck, by name
fn check_deck(els: &[El], v: &[f64], c: &mut Case) -> Result<(), String> {
    let (ckt, cf) = read_deck(&deck(els, "op"))?;
    let x = solved(&ckt, &cf)?;
    if ckt.count_nodes() != v.len() {
        return Err(format!("{} nodes counted, expected {}", ckt.count_nodes(), v.len()));
    }
    let nb = els.iter().filter(|e| e.has_branch()).count();
    if x.len() != v.len() + nb || ckt.count_voltage_sources() != nb {
        return Err(format!("{} unknowns and {} sources, expected {} and {}", x.len(), ckt.count_voltage_sources(), v.len() + nb, nb));
    }
    for (k, want) in v.iter().enumerate() {
        let id = ckt.get_node_id(&node_name(k)).ok_or(format!("no node {}", node_name(k)))?;
        expect(x[id], *want, "voltage of node", k)?;
    }
    c.steps(v.len());
    c.validated();
    c.saw(&v.len());
    Ok(())
}

fn solved(ckt: &Circuit, cf: &Configuration) -> Result<Vec<f64>, String> {
    let mut e = Engine::new();
    let st = e.dc_operating_point(ckt, cf);
    let x = e.dc().ok_or("no operating point")?;
    if st.iterations > cf.ITL1 || x.iter().any(|v| !v.is_finite()) {
        return Err(format!("not solved ({} iterations)", st.iterations));
    }
    Ok(x)
}

fn by_name(ckt: &Circuit, x: &[f64], name: &str, want: f64) -> Result<(), String> {
    let id = ckt.get_node_id(name).ok_or(format!("no node {}", name))?;
    let got = *x.get(id).ok_or(format!("{} is node {} of {}", name, id, x.len()))?;
    if close(got, want, 1e-7, 1e-3) {
        Ok(())
    } else {
        Err(format!("v({}) is {:e}, expected {:e}", name, got, want))
    }
}

fn run(cx: &mut Cx) {
    let thorough = cx.thorough();
    let top = cx.by(160, 320);
    for (name, f) in families() {
        cx.family(name);
        for n in (1..=top).chain([255, 256, 257].into_iter().filter(|n| *n > top)) {
            for via in [false, true] {
                if via && !cx.thorough() && n > 20 && !(95..=110).contains(&n) && n % 16 != 0 && n % 16 != 1 {
                    continue;
                }
                cx.case(&|| format!("{} of size {}{}", name, n, if via { " in a deck" } else { "" }), &mut |c| {
                    let (els, v, i) = f(n);
                    if via {
                        check_deck(&els, &v, c)
                    } else {
                        check_direct(&els, &v, &i, c)
                    }
                });
            }
        }
    }

    cx.family("diodes, capacitors, sines and PWLs side by side");
    for n in (1..=cx.by(100, 320)).chain([255, 256, 257, 258].into_iter().filter(|_| !thorough)) {
        for kind in 0..4 {
            cx.case(&|| format!("{} of kind {}", n, kind), &mut |c| {
                // all driven from the same node, each on a resistor of its own: each is as if it were alone
                let branch = |k: usize, at: usize| -> Vec<El> {
                    let r = R(1, at, 1.0 + (k % 5) as f64);
                    match kind {
                        0 => vec![r, D(at, 0, 1e-9)],
                        1 => vec![r, C(at, 0, 0.2 + (k % 3) as f64)],
                        2 => vec![r, Is(at, 0, [0.1 * k as f64, 1.0, 0.2])],
                        _ => vec![r, Is(0, at, [0.0, (k % 7) as f64, 0.1])],
                    }
                };
                let src = |v: f64| if kind == 3 { Vp(1, 0, PwlSpec { pat: vec![(0.0, v), (2.0, -v), (5.0, 1.0)], td: 0.0, rep: false }) } else { Vs(1, 0, [v, 1.0, 0.1]) };
                let mut els = vec![src(2.0)];
                for k in 0..n {
                    els.extend(branch(k, k + 2));
                }
                let cf = tran_cfg(0.5, if n > 60 { 1.5 } else { 5.0 }, 0.0);
                let big = run_tran(&build(&els), &cf)?;
                for k in (0..n).filter(|k| *k < 105 || *k + 105 >= n) {
                    let mut one = vec![src(2.0)];
                    one.extend(branch(k, 2));
                    let one = run_tran(&build(&one), &cf)?;
                    for r in &big.wave.rows {
                        // the steps may differ: compare where both have a row
                        for s in one.wave.rows.iter().filter(|s| s.0 == r.0) {
                            let (got, want) = (r.1[k + 2], s.1[2]);
                            if kind != 0 && !close(got, want, 1e-6, 1.0) && (big.wave.rows.len() == one.wave.rows.len()) || (got - want).abs() > 0.05 + 0.01 * want.abs() {
                                return Err(format!("number {} at {:e}: {:e}, alone it is {:e}", k, r.0, got, want));
                            }
                        }
                    }
                    c.step();
                }
                c.validated();
                c.saw(&(n, kind));
                Ok(())
            });
        }
    }

    cx.family("diodes in series");
    for n in 1..=cx.by(60, 120) {
        cx.case(&|| format!("{} diodes in series with 1k and {} V", n, n), &mut |c| {
            let mut els = vec![V(1, 0, n as f64), R(1, 2, 1e3)];
            for k in 0..n {
                els.push(D(k + 2, if k + 1 == n { 0 } else { k + 3 }, 1e-9));
            }
            let (nn, x) = solve(&els)?;
            // equal drops, and the current through them
            let i = (x[1] - x[2]) / 1e3;
            let vt = impl_vt();
            for k in 0..n {
                let vd = x[k + 2] - if k + 1 == n { 0.0 } else { x[k + 3] };
                if !close(vd, x[2] / n as f64, 1e-3, 1.0) {
                    return Err(format!("diode {} has {:e} V, all of them {:e} V", k, vd, x[2]));
                }
                let id = 1e-9 * ((vd / vt).exp() - 1.0);
                if !close(id, i, 2e-2, 1e-9) {
                    return Err(format!("diode {} carries {:e} A, the resistor {:e} A", k, id, i));
                }
            }
            c.steps(nn);
            c.validated();
            c.saw(&n);
            Ok(())
        });
    }

    cx.family("transients");
    for n in (1..=cx.by(130, 200)).filter(|n| thorough || *n <= 24 || (96..=108).contains(n) || n % 10 == 0).chain([257, 258]) {
        cx.case(&|| format!("{} RC stages side by side, and their rows", n), &mut |c| {
            // each stage is the same circuit
            let mut els = vec![];
            for k in 0..n {
                let (a, b) = (2 * k + 1, 2 * k + 2);
                els.push(if n % 2 == 1 { Vs(a, 0, [0.0, 1.0, 0.1]) } else { Vp(a, 0, PwlSpec { pat: vec![(0.0, 0.0), (2.0, 3.0), (4.0, -1.0)], td: 0.0, rep: false }) });
                els.push(R(a, b, 1.0));
                els.push(C(b, 0, 1.0));
            }
            let cf = tran_cfg(0.5, 5.0, 0.0);
            let big = run_tran(&build(&els), &cf)?;
            let one = run_tran(&build(&els[..3]), &cf)?;
            if big.end != 5.0 || big.wave.rows.len() != one.wave.rows.len() {
                return Err(format!("{} rows to {:e}, one alone has {}", big.wave.rows.len(), big.end, one.wave.rows.len()));
            }
            if big.wave.names.len() != 2 + 3 * n {
                return Err(format!("{} columns", big.wave.names.len()));
            }
            for (r, s) in big.wave.rows.iter().zip(&one.wave.rows) {
                for k in 0..n {
                    for (got, want) in [(r.1[2 * k + 1], s.1[1]), (r.1[2 * k + 2], s.1[2]), (r.1[2 * n + 1 + k], s.1[3])] {
                        if !close(got, want, 1e-9, 1e-3) {
                            return Err(format!("stage {} at {:e}: {:e}, alone it is {:e}", k, r.0, got, want));
                        }
                    }
                }
                c.step();
            }
            c.validated();
            c.saw(&n);
            Ok(())
        });
    }

    cx.family("decks of very many cards, put together but not solved");
    for n in cx.by(vec![1000, 10001, 33000], vec![1000, 10001, 33000, 66000]) {
        for form in 0..4 {
            cx.case(&|| format!("{} cards, form {}", n, form), &mut |c| {
                // resistor k is from n(k) to n(k+1) and of k+1 ohms, in definitions of up to 100 in forms 2 and 3
                let mut t = String::from("t\n");
                let per = 100;
                match form {
                    0 | 1 => {
                        for k in 0..n {
                            let k = if form == 0 { k } else { n - 1 - k };
                            t += &format!("R{} n{} n{} {}\n", k, k, k + 1, k + 1);
                        }
                    }
                    2 => {
                        // instances of one
                        for k in 0..n {
                            t += &format!("X{} n{} n{} one r={}\n", k, k, k + 1, k + 1);
                        }
                        t += ".subckt one a b r=0\nR1 a b {r}\n.ends\n";
                    }
                    _ => {
                        // each definition is used once
                        for (j, k) in (0..n).step_by(per).enumerate() {
                            let m = (n - k).min(per);
                            t += &format!("X{} n{} n{} d{}\n.subckt d{} n0 n{}\n", j, k, k + m, j, j, m);
                            for i in 0..m {
                                t += &format!("R{} n{} n{} {}\n", i, i, i + 1, k + i + 1);
                            }
                            t += ".ends\n";
                        }
                    }
                }
                let (ckt, _) = read_deck(&t)?;
                if ckt.elements.len() != n || ckt.count_nodes() != n + 2 {
                    return Err(format!("{} elements and {} nodes", ckt.elements.len(), ckt.count_nodes()));
                }
                let mut at = vec![None; n + 1];
                let mut from = vec![false; n + 2];
                for e in &ckt.elements {
                    let Element::R(r) = e else { return Err("not a resistor".to_string()) };
                    let k = r.value as usize;
                    if k == 0 || k > n || r.value.fract() != 0.0 || at[k].is_some() || r.a == 0 || r.b == 0 || r.a > n + 1 || r.b > n + 1 {
                        return Err(format!("resistor of {} ohms from {} to {}", r.value, r.a, r.b));
                    }
                    at[k] = Some((r.a, r.b));
                    if std::mem::replace(&mut from[r.a], true) {
                        return Err(format!("two resistors start at node {}", r.a));
                    }
                }
                for k in 1..n {
                    if at[k].map(|x| x.1) != at[k + 1].map(|x| x.0) {
                        return Err(format!("resistors {} and {} are at {:?} and {:?}", k, k + 1, at[k], at[k + 1]));
                    }
                    c.step();
                }
                for k in [0, 1, n / 2, n] {
                    let name = if form < 3 || k % per == 0 || k == n { format!("n{}", k) } else { format!("X{}.n{}", k / per, k % per) };
                    let want = if k == n { at[n].map(|x| x.1) } else { at[k + 1].map(|x| x.0) };
                    if ckt.get_node_id(&name) != want {
                        return Err(format!("{} is node {:?}, not {:?}", name, ckt.get_node_id(&name), want));
                    }
                }
                c.validated();
                c.saw(&(n, form));
                Ok(())
            });
        }
    }

    cx.family("instances in a row");
    for n in (1..=cx.by(120, 250)).chain([255, 256, 257]) {
        cx.case(&|| format!("{} instances in a row", n), &mut |c| {
            let mut t = String::from("t\nVin n0 0 1\n");
            for k in 1..=n {
                t += &format!("X{} n{} n{} half g={}\n", k, k - 1, k, if k % 2 == 0 { "1" } else { "4" });
            }
            t += ".subckt half a b g=1\nR1 a m 1k\nR2 m 0 1k\nE1 b 0 m 0 {g}\n.ends\n";
            let (ckt, cf) = read_deck(&t)?;
            let x = solved(&ckt, &cf)?;
            if ckt.count_nodes() != 2 + 2 * n || ckt.elements.len() != 1 + 3 * n || x.len() != 2 + 2 * n + 1 + n {
                return Err(format!("{} nodes, {} elements, {} unknowns", ckt.count_nodes(), ckt.elements.len(), x.len()));
            }
            let mut v = 1.0;
            for k in 1..=n {
                by_name(&ckt, &x, &format!("X{}.m", k), v / 2.0)?;
                v *= if k % 2 == 0 { 0.5 } else { 2.0 };
                by_name(&ckt, &x, &format!("n{}", k), v)?;
                c.step();
            }
            c.validated();
            c.saw(&n);
            Ok(())
        });
    }

    cx.family("levels of hierarchy");
    for n in 1..=cx.by(60, 150) {
        for form in 0..2 {
            cx.case(&|| format!("{} levels, form {}", n, form), &mut |c| {
                // each level is 1 ohm in series with the next one; parameters are handed down
                let mut defs = vec![];
                for k in 1..=n {
                    defs.push(if k < n {
                        format!(".subckt l{} a r=7\nR1 a m 1\nV1 z m {}\nR2 z y 1k\nXd m l{} r={{r}}\n.ends\n", k, k, k + 1)
                    } else {
                        format!(".subckt l{} a r=7\nR1 a m 1\nR2 m 0 {{r}}\n.ends\n", k)
                    });
                }
                if form == 1 {
                    defs.reverse();
                }
                let t = format!("t\nI1 0 top 1\nX1 top l1 r=3\n{}", defs.concat());
                let (ckt, cf) = read_deck(&t)?;
                let x = solved(&ckt, &cf)?;
                if ckt.count_nodes() != 3 * n || ckt.elements.len() != 3 * n {
                    return Err(format!("{} nodes, {} elements", ckt.count_nodes(), ckt.elements.len()));
                }
                by_name(&ckt, &x, "top", (n + 3) as f64)?;
                let mut path = String::from("X1");
                for k in 1..=n {
                    by_name(&ckt, &x, &format!("{}.m", path), (n + 3 - k) as f64)?;
                    if k < n {
                        // nothing flows there
                        by_name(&ckt, &x, &format!("{}.y", path), (n + 3) as f64)?;
                    }
                    path += ".Xd";
                    c.step();
                }
                c.validated();
                c.saw(&n);
                Ok(())
            });
        }
    }

    cx.family("trees of instances");
    for (width, levels) in [(2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (2, 6), (2, 7), (3, 2), (3, 3), (3, 4), (10, 2), (12, 2), (100, 1), (5, 3)] {
        if !cx.thorough() && f64::powi(width as f64, levels) > 130.0 {
            continue;
        }
        cx.case(&|| format!("{} levels of {} instances each", levels, width), &mut |c| {
            // leaf: 1 ohm to ground behind a node of its own
            let mut t = String::from("t\nV1 top 0 1\nX1 top l1\n");
            for l in 1..=levels {
                t += &format!(".subckt l{} a\n", l);
                if l == levels {
                    t += "R1 a m 1\nR2 m 0 1\n";
                } else {
                    for k in 0..width {
                        t += &format!("X{} a l{}\n", k, l + 1);
                    }
                }
                t += ".ends\n";
            }
            let leaves = usize::pow(width, levels as u32 - 1);
            let (ckt, cf) = read_deck(&t)?;
            let x = solved(&ckt, &cf)?;
            if ckt.count_nodes() != 2 + leaves || ckt.elements.len() != 1 + 2 * leaves {
                return Err(format!("{} nodes, {} elements for {} leaves", ckt.count_nodes(), ckt.elements.len(), leaves));
            }
            if !close(x[ckt.count_nodes()], -0.5 * leaves as f64, 1e-9, 1e-3) {
                return Err(format!("supply current is {:e} for {} leaves", x[ckt.count_nodes()], leaves));
            }
            c.steps(leaves);
            c.validated();
            c.saw(&leaves);
            Ok(())
        });
    }

    cx.family("long names, many ports, many parameters, many definitions");
    for n in (1..=cx.by(64, 200)).chain([257]) {
        cx.case(&|| format!("{} ports, parameters, definitions and letters in a name", n), &mut |c| {
            let long = |k: usize| format!("{}_{}", "n".repeat(n), k);
            let mut t = String::from("t\n");
            let ports: Vec<String> = (0..n).map(|k| format!("p{}", k)).collect();
            let conns: Vec<String> = (0..n).map(long).collect();
            for k in 0..n {
                t += &format!("V{} {} 0 {}\n", k, long(k), k + 1);
            }
            let over: Vec<String> = (0..n).map(|k| format!("r{}={}", k, k + 2)).collect();
            t += &format!("Xmany {} many {}\n", conns.join(" "), over.join(" "));
            let defs: Vec<String> = (0..n).map(|k| format!("r{}=1", k)).collect();
            for k in 0..n {
                t += &format!(".subckt other{} a b\nR1 a b {}\n.ends\n", k, k + 1);
            }
            t += &format!(".subckt many {} {}\n", ports.join(" "), defs.join(" "));
            for k in 0..n {
                t += &format!("R{} p{} m{} {{r{}}}\nXo{} m{} 0 other{}\n", k, k, k, k, k, k, k);
            }
            t += ".ends\n";
            let (ckt, cf) = read_deck(&t)?;
            let x = solved(&ckt, &cf)?;
            if ckt.count_nodes() != 1 + 2 * n {
                return Err(format!("{} nodes", ckt.count_nodes()));
            }
            for k in 0..n {
                let (r1, r2) = ((k + 2) as f64, (k + 1) as f64);
                by_name(&ckt, &x, &long(k), (k + 1) as f64)?;
                by_name(&ckt, &x, &format!("Xmany.m{}", k), (k + 1) as f64 * r2 / (r1 + r2))?;
                c.step();
            }
            c.validated();
            c.saw(&n);
            Ok(())
        });
    }

    cx.family("waveform files with many columns");
    for n in (1..=cx.by(130, 300)).filter(|n| thorough || *n <= 12 || (97..=104).contains(n) || n % 13 == 0).chain([256, 257]) {
        cx.case(&|| format!("{} nodes", n), &mut |c| {
            let (els, v, _) = families()[1].1(n);
            let (ckt, cf) = read_deck(&deck(&els, "tran 1 4"))?;
            let mut e = Engine::new();
            e.go(&ckt, &cf);
            let w = crate::wave::load(Path::new("waves/d.spi/tran.dat"))?;
            c.steps(w.rows.len());
            for (k, want) in v.iter().enumerate().skip(1) {
                let col = w.names.iter().position(|x| *x == format!("v({})", node_name(k))).ok_or(format!("no column for node {}", k))?;
                for r in &w.rows {
                    expect(r.1[col - 1], *want, "column of node", k)?;
                }
            }
            c.validated();
            c.saw(&n);
            Ok(())
        });
    }
}
