//! C02 DC with diodes
use super::c08::check_deck;
use super::util::*;
use crate::harness::*;
use crate::net::El::*;
use crate::hier::{flatten, to_els};
use crate::net::*;
use crate::shipped;

pub fn def() -> PropDef {
    PropDef {
        id: "C02",
        run,
        rule: "every small netlist of resistors, sources, diodes and controlled sources with drive levels of both signs over several decades, plus series, parallel, antiparallel and bridge arrangements of up to many diodes; convergence within ITL1 where every diode is fed through a resistance, and Kirchhoff's current law with the diode law at every node of everything that converged; and the decks that come with the simulator (of a kind the property is about) and those one edit away from them",
        hang_s: 20,
    }
}

const IS: f64 = 1e-9;

fn pick(al: &[El], ix: &[usize]) -> Vec<El> {
    ix.iter().map(|i| al[*i].clone()).collect()
}

/// Every node has a path to ground and every diode current is limited by a resistor: replacing
/// diodes by shorts must leave no loop of voltage sources, and removing them no floating node.
fn fed_through_resistors(els: &[El]) -> bool {
    if els.iter().any(|e| matches!(e, E(..) | G(..))) {
        return false;
    }
    // union of nodes over V/E outputs and diodes: a cycle means an unlimited diode
    let n = n_nodes(els);
    let mut p: Vec<usize> = (0..n).collect();
    fn find(p: &mut Vec<usize>, mut x: usize) -> usize {
        while p[x] != x {
            x = p[x];
        }
        x
    }
    // sources first, and then diodes: diodes in parallel are fine
    for e in els {
        if let V(a, b, _) = e {
            let (a, b) = (find(&mut p, *a), find(&mut p, *b));
            if a == b {
                return false;
            }
            p[a] = b;
        }
    }
    let src = p.clone();
    let mut dio = vec![];
    for e in els {
        if let D(a, b, _) = e {
            if a == b {
                continue; // always 0 V
            }
            let mut s = src.clone();
            if find(&mut s, *a) == find(&mut s, *b) {
                return false;
            }
            dio.push((*a, *b));
        }
    }
    // paths of diodes between two source terminals
    let mut q = src.clone();
    let mut seen: Vec<(usize, usize)> = vec![];
    for (a, b) in dio {
        let k = (a.min(b), a.max(b));
        if seen.contains(&k) {
            continue;
        }
        seen.push(k);
        // (two diodes that come together in a source are no such thing: they are a loop with it)
        let (x, y) = (find(&mut q, a), find(&mut q, b));
        if x == y {
            return false;
        }
        q[x] = y;
    }
    // resistive path from every node to ground, over resistors and sources
    let mut r: Vec<usize> = (0..n).collect();
    for e in els {
        if let V(a, b, _) | R(a, b, _) = e {
            let (a, b) = (find(&mut r, *a), find(&mut r, *b));
            r[a] = b;
        }
    }
    (1..n).all(|k| find(&mut r, k) == find(&mut r, 0))
}

fn check(els: &[El], vt: f64, must: bool, c: &mut Case) -> Result<(), String> {
    let cfg = cfg();
    let res = match guard(|| run_dc(&build(els), &cfg)) {
        Ok(r) => r,
        Err(m) => return if must { Err(format!("panic: {}", m)) } else { c.saw(&"panic"); Ok(()) },
    };
    c.steps(res.iterations);
    c.validated();
    let ok = res.accepted(&cfg);
    c.saw(&(ok, res.iterations));
    if !ok {
        return if must { Err(format!("did not converge: {} iterations, {:?}", res.iterations, res.x)) } else { Ok(()) };
    }
    let slack = Slack { reltol: cfg.RELTOL, vntol: cfg.VNTOL };
    check_equations(els, n_nodes(els), &branch_in_order(els), &res.x, 0.0, None, vt, Some(slack))
        .map_err(|m| format!("reported as converged after {} iterations but {}", res.iterations, m))?;
    Ok(())
}

fn run(cx: &mut Cx) {
    let vt = impl_vt();
    cx.family("all sets of up to 5 elements on 3 nodes");
    let mut al = vec![];
    for (a, b) in ordered_pairs(3) {
        al.push(D(a, b, IS));
    }
    for (a, b) in unordered_pairs(3) {
        al.push(R(a, b, 1000.0));
        al.push(R(a, b, 10.0));
        for v in [0.5, 5.0, -5.0] {
            al.push(V(a, b, v));
        }
        for v in [1e-3, -1e-3] {
            al.push(I(a, b, v));
        }
    }
    sets(cx, &al, 2, cx.deep(5, 6, 7), vt);

    cx.family("diodes and other elements with both ends on one node: all sets of up to 4");
    let mut al: Vec<El> = (0..3).flat_map(|a| vec![D(a, a, IS), R(a, a, 10.0), I(a, a, 1.0)]).collect();
    for (a, b) in ordered_pairs(3) {
        al.extend([D(a, b, IS), R(a, b, 1000.0), G(a, b, b, b, 1.0), E(a, b, b, b, 1.0)]);
    }
    al.extend([V(1, 0, 5.0), V(0, 2, 0.7), I(0, 1, 1e-3), I(1, 2, -1e-3)]);
    sets(cx, &al, 1, cx.deep(4, 5, 6), vt);

    cx.family("all sets of up to 6 elements on 4 nodes, diode chains and bridges");
    let mut al = vec![];
    for (a, b) in ordered_pairs(4) {
        al.push(D(a, b, IS));
    }
    for (a, b) in unordered_pairs(4) {
        al.push(R(a, b, 1000.0));
    }
    al.push(V(1, 0, 5.0));
    al.push(V(1, 0, -0.8));
    al.push(I(0, 1, 10e-3));
    sets(cx, &al, 3, cx.deep(5, 6, 7), vt);

    cx.family("controlled sources with diodes: all sets of up to 4 on 3 loaded nodes");
    let mut al = vec![];
    for (a, b) in ordered_pairs(3) {
        al.push(D(a, b, IS));
        for (x, y) in unordered_pairs(3) {
            al.push(G(a, b, x, y, 1e-3));
            al.push(E(a, b, x, y, 2.0));
        }
    }
    al.push(I(0, 1, 1e-3));
    al.push(I(2, 0, 1e-3));
    al.push(V(1, 0, 2.0));
    for len in 2..=cx.deep(3, 4, 5) {
        multisets(len, al.len(), &mut |ix| {
            let mut els = pick(&al, ix);
            els.push(R(1, 0, 1000.0));
            els.push(R(2, 0, 470.0));
            cx.case(&|| show(&els), &mut |c| check(&els, vt, false, c));
        });
    }

    // drive levels: the same arrangement over many operating points and saturation currents
    cx.family("arrangements x drive levels x resistances x saturation currents");
    let drives: Vec<f64> = [0.0, 1e-6, 0.01, 0.1, 0.3, 0.5, 0.55, 0.6, 0.65, 0.7, 0.8, 1.0, 1.5, 2.0, 3.0, 5.0, 7.0, 10.0, 12.0, 15.0, 24.0, 50.0]
        .iter()
        .flat_map(|v| [*v, -*v])
        .collect();
    let rs: &[f64] = cx.by(&[1.0, 100.0, 1e4, 1e6], &[0.1, 1.0, 10.0, 100.0, 1e3, 1e4, 1e5, 1e6]);
    for a in 0..ARRANGEMENTS {
        for v in &drives {
            for r1 in rs {
                for r2 in rs {
                    for isat in [1e-9, 1e-12, 1e-15, 1e-6] {
                        for rev in [false, true] {
                            let els = arrangement(a, *v, *r1, *r2, isat, rev);
                            cx.case(&|| format!("Is={:e}\n{}", isat, show(&els)), &mut |c| check(&els, vt, true, c));
                        }
                    }
                }
            }
        }
    }

    cx.family("many diodes side by side, conducting and blocking");
    for n in 1..=cx.deep(40usize, 90, 250) {
        for k in 0..6usize {
            let mut els = vec![V(1, 0, 5.0), V(2, 0, -30.0), R(1, 0, 1e3), R(2, 0, 1e3)];
            for i in 0..n {
                let m = 3 + i;
                let src = if (i * (k + 1) + k) % 3 == 0 { 1 } else { 2 };
                // a diode that blocks carries Is: no more than 1 V on 1e9 ohms
                els.push(R(src, m, if (i + k) % 4 == 3 { 1e9 } else { 1e3 * (1 + i) as f64 }));
                els.push(if (i + i / 5 + k) % 2 == 0 { D(m, 0, IS) } else { D(0, m, IS) });
            }
            cx.case(&|| show(&els), &mut |c| check(&els, vt, true, c));
        }
    }

    cx.family("the decks with diodes that come with the simulator at several levels, and those with one value another one or one card rewired");
    for sh in shipped::all().into_iter().filter(|sh| sh.has("D")) {
        for level in [1.0, 0.5, 0.1, 0.01, 0.0, -0.03, -0.3, -1.0] {
            let d = shipped::at_level(&sh.deck, level);
            let mut v = vec![d.clone()];
            v.extend(shipped::revalued(&d, &|_, v| vec![v * 3.0, v * 0.1, -v]));
            if level == 1.0 || level == -0.3 {
                v.extend(shipped::rewired(&d));
                v.extend(shipped::recut(&d));
            }
            for e in v {
                cx.case(&|| format!("{}\n{}", sh.name, e.text()), &mut |c| {
                    let els = to_els(&flatten(&e)?)?.0;
                    if !els.iter().all(|e| !matches!(e, R(_, _, r) if *r <= 0.0)) {
                        c.skipped = true;
                        return Ok(());
                    }
                    if fed_through_resistors(&els) {
                        check_deck(&e, true, c)
                    } else {
                        check(&els, vt, false, c)
                    }
                });
            }
        }
    }

    cx.family("through the reader: all sets of up to 4 elements on 3 nodes");
    let mut al = vec![];
    for (a, b) in ordered_pairs(3) {
        al.push(D(a, b, IS));
    }
    for (a, b) in unordered_pairs(3) {
        al.push(R(a, b, 1000.0));
    }
    al.push(V(1, 0, 5.0));
    al.push(V(0, 1, 0.7));
    al.push(I(0, 2, 1e-3));
    for len in 2..=4 {
        multisets(len, al.len(), &mut |ix| {
            let els = pick(&al, ix);
            cx.case(&|| show(&els), &mut |c| {
                if !contiguous(&els) || !els.iter().any(|e| matches!(e, D(..))) || !fed_through_resistors(&els) {
                    c.skipped = true;
                    return Ok(());
                }
                let (ckt, cf) = read_deck(&deck(&els, "op"))?;
                let res = run_dc(&ckt, &cf);
                c.steps(res.iterations);
                c.validated();
                if !res.accepted(&cf) {
                    return Err(format!("did not converge: {} iterations, {:?}", res.iterations, res.x));
                }
                let nn = n_nodes(&els);
                let mut x = vec![0.0; res.x.len()];
                for n in 1..nn {
                    x[n] = res.x[ckt.get_node_id(&node_name(n)).ok_or("node lost")?];
                }
                x[nn..].copy_from_slice(&res.x[nn..]);
                let slack = Slack { reltol: cf.RELTOL, vntol: cf.VNTOL };
                check_equations(&els, nn, &deck_branches(&els, &ckt)?, &x, 0.0, None, vt, Some(slack))?;
                Ok(())
            });
        });
    }
}

const ARRANGEMENTS: usize = 8;
fn arrangement(k: usize, v: f64, r1: f64, r2: f64, is: f64, rev: bool) -> Vec<El> {
    let d = |a: usize, b: usize| if rev { D(b, a, is) } else { D(a, b, is) };
    match k {
        // divider
        0 => vec![V(1, 0, v), R(1, 2, r1), d(2, 0), R(2, 0, r2)],
        // series chain
        1 => vec![V(1, 0, v), R(1, 2, r1), d(2, 3), d(3, 4), d(4, 0), R(4, 0, r2), R(3, 0, 1e6)],
        // antiparallel
        2 => vec![V(1, 0, v), R(1, 2, r1), d(2, 0), d(0, 2), R(2, 0, r2)],
        // full bridge with load
        3 => vec![V(1, 0, v), R(1, 2, r1), d(2, 3), d(4, 2), d(0, 3), d(4, 0), R(3, 4, r2), R(4, 0, 1e6)],
        // clamp to a supply
        4 => vec![V(1, 0, v), R(1, 2, r1), d(2, 3), V(4, 0, 3.3), R(4, 3, r2), R(2, 0, 1e5)],
        // parallel diodes of different size
        5 => vec![V(1, 0, v), R(1, 2, r1), D(2, 0, is), d(2, 0), D(2, 0, is * 100.0), R(2, 0, r2)],
        // opposed in series
        6 => vec![V(1, 0, v), R(1, 2, r1), d(2, 3), d(4, 3), R(3, 0, r2), R(4, 0, r1)],
        // fed by a current
        _ => vec![I(0, 1, v / r1.max(10.0)), R(1, 0, r1), R(1, 2, r2), d(2, 0), d(1, 3), R(3, 0, r1)],
    }
}

fn sets(cx: &mut Cx, al: &[El], lo: usize, hi: usize, vt: f64) {
    for len in lo..=hi {
        multisets(len, al.len(), &mut |ix| {
            let els = pick(al, ix);
            let d = els.iter().any(|e| matches!(e, D(..)));
            if !d || !contiguous(&els) {
                return;
            }
            let must = fed_through_resistors(&els);
            cx.case(&|| show(&els), &mut |c| check(&els, vt, must, c));
        });
    }
}
