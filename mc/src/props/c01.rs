//! C01 linear DC, C22 unsolvable circuits
use super::c08::check_deck;
use super::util::*;
use crate::harness::*;
use crate::net::El::*;
use crate::hier::{flatten, to_els};
use crate::net::*;
use crate::shipped;

pub fn def() -> PropDef {
    PropDef {
        id: "C01",
        run: run01,
        rule: "every sequence of elements up to a length over an alphabet with every kind of linear element on every pair of nodes in every orientation, with values over several decades, and scaled, renumbered and larger families; the reported solution compared with an exact rational solution of the nodal equations (systems without exactly one solution are outside the domain); and the decks that come with the simulator (of a kind the property is about) and those one edit away from them",
        hang_s: 20,
    }
}
pub fn def22() -> PropDef {
    PropDef { id: "C22", run: run22, rule: "every multiset of linear elements, including the contradictory, under-determined and ill-conditioned ones; whatever is reported as converged and finite is put into all the equations of the circuit", hang_s: 20 }
}

/// Every linear element over `n` nodes for the given kinds and values
pub fn alphabet(n: usize, kinds: &str, big: bool) -> Vec<El> {
    let mut v = vec![];
    for k in kinds.chars() {
        match k {
            'R' => {
                for (a, b) in unordered_pairs(n) {
                    v.push(R(a, b, 1.0));
                    v.push(R(b, a, 4.0));
                }
            }
            'C' => {
                for (a, b) in unordered_pairs(n) {
                    v.push(C(a, b, 1.0));
                }
            }
            'I' => {
                for (a, b) in ordered_pairs(n) {
                    v.push(I(a, b, 2.0));
                }
            }
            'V' => {
                for (a, b) in ordered_pairs(n) {
                    v.push(V(a, b, 3.0));
                }
            }
            'v' => {
                for (a, b) in unordered_pairs(n) {
                    v.push(V(a, b, 3.0));
                    v.push(V(b, a, 1.0));
                }
            }
            'E' | 'G' => {
                for (a, b) in ordered_pairs(n) {
                    for (c, d) in ordered_pairs(n) {
                        // reversing both pairs is the same element
                        if !big && c < d {
                            continue;
                        }
                        v.push(if k == 'E' { E(a, b, c, d, 2.0) } else { G(a, b, c, d, 0.5) });
                    }
                }
            }
            's' => {
                for (a, b) in unordered_pairs(n) {
                    v.push(Vs(a, b, [1.5, 7.0, 50.0]));
                    v.push(Is(b, a, [0.5, 3.0, 10.0]));
                    v.push(Vp(b, a, PwlSpec { pat: vec![(0.0, 2.5), (1.0, 4.0)], td: 0.0, rep: false }));
                }
            }
            _ => {}
        }
    }
    v
}

/// Elements that have ends on the same node, controlled sources that control themselves, negative resistances
pub fn loops(n: usize) -> Vec<El> {
    let mut v = vec![];
    for a in 0..n {
        v.extend([R(a, a, 2.0), C(a, a, 1.0), I(a, a, 2.0), V(a, a, 3.0), V(a, a, 0.0)]);
        v.extend([Vs(a, a, [1.5, 7.0, 50.0]), Vs(a, a, [0.0, 7.0, 50.0]), Is(a, a, [0.5, 3.0, 10.0])]);
        v.push(Vp(a, a, PwlSpec { pat: vec![(0.0, 2.5), (1.0, 4.0)], td: 0.0, rep: false }));
    }
    for (a, b) in ordered_pairs(n) {
        for k in [0.5, 1.0, -1.0, 0.0] {
            v.extend([E(a, b, a, b, k), G(a, b, a, b, k)]);
        }
        v.extend([E(a, a, a, b, 2.0), E(a, b, b, b, 2.0), E(b, b, b, b, 1.0)]);
        v.extend([G(a, a, a, b, 0.5), G(a, b, b, b, 0.5), G(b, b, b, b, 0.5)]);
    }
    for (a, b) in unordered_pairs(n) {
        v.extend([R(a, b, -2.0), R(b, a, -1.0), V(a, b, 0.0), I(b, a, 0.0)]);
    }
    v
}

/// All sets of up to `len` with at least one of `loops`, forwards and backwards
fn with_loops(cx: &mut Cx, len: usize, f: &mut dyn FnMut(&[El], &mut Case) -> Result<(), String>) {
    let mut al = loops(3);
    let nl = al.len();
    al.extend(alphabet(3, "RIvEGC", false));
    for len in 1..=len {
        multisets(len, al.len(), &mut |ix| {
            if ix[0] >= nl {
                return;
            }
            cx.case(&|| show(&pick(&al, ix)), &mut |c| f(&pick(&al, ix), c));
            if len > 1 {
                cx.case(&|| show(&rev(pick(&al, ix))), &mut |c| f(&rev(pick(&al, ix)), c));
            }
        });
    }
}

/// Check one circuit whose solution is known exactly
pub fn check_exact(els: &[El], via_deck: bool, c: &mut Case) -> Result<(), String> {
    if !contiguous(els) {
        c.skipped = true;
        return Ok(());
    }
    let want = match exact_dc(els) {
        Exact::Unique(x) => x,
        _ => {
            c.skipped = true;
            return Ok(());
        }
    };
    check_against(els, &want, via_deck, c)
}

pub fn check_against(els: &[El], want: &[f64], via_deck: bool, c: &mut Case) -> Result<(), String> {
    let cfg = cfg();
    let scale = want.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let (res, order): (DcRes, Vec<usize>) = if via_deck {
        let (ckt, cf) = read_deck(&deck(els, "op"))?;
        let res = run_dc(&ckt, &cf);
        // columns by name, branches by what they are
        let nn = n_nodes(els);
        let mut order = vec![0usize; nn];
        for n in 1..nn {
            order[n] = ckt.get_node_id(&node_name(n)).ok_or("node lost")?;
        }
        order.extend(deck_branches(els, &ckt)?.iter().map(|b| nn + b));
        (res, order)
    } else {
        (run_dc(&build(els), &cfg), (0..want.len()).collect())
    };
    c.steps(res.iterations);
    c.validated();
    if res.x.len() != want.len() {
        return Err(format!("expected {} unknowns, got {:?}", want.len(), res.x));
    }
    let got: Vec<f64> = order.iter().map(|i| res.x[*i]).collect();
    for (i, w) in want.iter().enumerate() {
        if !(close(got[i], *w, 1e-9, scale)) {
            return Err(format!("unknown {} is {:e}, expected {:e}\ngot  {:?}\nwant {:?}", i, got[i], w, got, want));
        }
    }
    if res.iterations > cfg.ITL1 {
        return Err(format!("reported as divergent ({} iterations)", res.iterations));
    }
    let q: Vec<i64> = want.iter().map(|v| (v * 1e6).round() as i64).collect();
    c.saw(&q);
    Ok(())
}

fn pick(al: &[El], ix: &[usize]) -> Vec<El> {
    ix.iter().map(|i| al[*i].clone()).collect()
}

fn rev(v: Vec<El>) -> Vec<El> {
    v.into_iter().rev().collect()
}

/// Residual check only: for values an exact solution is not available for
pub fn check_residual(els: &[El], c: &mut Case) -> Result<(), String> {
    let cfg = cfg();
    let res = run_dc(&build(els), &cfg);
    c.steps(res.iterations);
    c.validated();
    if !res.accepted(&cfg) {
        return Err(format!("no solution reported: {} iterations, {:?}", res.iterations, res.x));
    }
    check_equations(els, n_nodes(els), &branch_in_order(els), &res.x, 0.0, None, 1.0, None)?;
    let q: Vec<i64> = res.x.iter().map(|v| (v.abs() + 1e-30).log10().round() as i64).collect();
    c.saw(&q);
    Ok(())
}

/// The same circuit with every resistance multiplied by 2^k: the voltages stay, the currents are 2^-k times
/// as large
fn scaled(els: &[El], k: i32) -> Vec<El> {
    let f = 2.0f64.powi(k);
    els.iter()
        .map(|e| match e {
            R(a, b, v) => R(*a, *b, v * f),
            I(a, b, v) => I(*a, *b, v / f),
            Is(a, b, p) => Is(*a, *b, [p[0] / f, p[1] / f, p[2]]),
            G(a, b, c, d, v) => G(*a, *b, *c, *d, v / f),
            e => e.clone(),
        })
        .collect()
}

fn check_scaled(els: &[El], k: i32, c: &mut Case) -> Result<(), String> {
    if !contiguous(els) {
        c.skipped = true;
        return Ok(());
    }
    let want = match exact_dc(els) {
        Exact::Unique(x) => x,
        _ => {
            c.skipped = true;
            return Ok(());
        }
    };
    let cfg = cfg();
    let res = run_dc(&build(&scaled(els, k)), &cfg);
    c.steps(res.iterations);
    c.validated();
    if res.x.len() != want.len() || !res.accepted(&cfg) {
        return Err(format!("no solution reported: {} iterations, {:?}", res.iterations, res.x));
    }
    let (nn, f) = (n_nodes(els), 2.0f64.powi(k));
    let got: Vec<f64> = res.x.iter().enumerate().map(|(i, v)| if i < nn { *v } else { v * f }).collect();
    let top = |v: &[f64]| v.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let scale = [top(&want[..nn]), top(&want)];
    for (i, w) in want.iter().enumerate() {
        if !close(got[i], *w, 1e-9, scale[(i >= nn) as usize]) {
            return Err(format!("unknown {} is {:e} (scaled back), expected {:e}\ngot  {:?}\nwant {:?}", i, got[i], w, got, want));
        }
    }
    let q: Vec<i64> = want.iter().map(|v| (v * 1e6).round() as i64).collect();
    c.saw(&(k, q));
    Ok(())
}

fn run01(cx: &mut Cx) {
    // every sequence: order matters to the matrix
    cx.family("all sequences of up to 3 elements on 3 nodes");
    let al = alphabet(3, "RIVEGCs", true);
    for len in 1..=3 {
        tuples(len, al.len(), &mut |ix| {
            cx.case(&|| show(&pick(&al, ix)), &mut |c| check_exact(&pick(&al, ix), false, c));
        });
    }

    cx.family("all sets of 4 elements on 3 nodes, forwards and backwards");
    let al = alphabet(3, "RIVEGCs", cx.thorough());
    multisets(4, al.len(), &mut |ix| {
        cx.case(&|| show(&pick(&al, ix)), &mut |c| check_exact(&pick(&al, ix), false, c));
        cx.case(&|| show(&rev(pick(&al, ix))), &mut |c| check_exact(&rev(pick(&al, ix)), false, c));
    });

    cx.family("elements with their ends on one node, sources controlling themselves, negative resistances: all sets of up to 3 with others on 3 nodes, forwards and backwards");
    with_loops(cx, 3, &mut |els, c| check_exact(els, false, c));

    cx.family("all sets of R, I, V elements on 4 nodes, forwards and backwards");
    let al = alphabet(4, cx.by("RIv", "RIVs"), false);
    for len in 3..=cx.deep(4, 5, 6) {
        multisets(len, al.len(), &mut |ix| {
            cx.case(&|| show(&pick(&al, ix)), &mut |c| check_exact(&pick(&al, ix), false, c));
            cx.case(&|| show(&rev(pick(&al, ix))), &mut |c| check_exact(&rev(pick(&al, ix)), false, c));
        });
    }

    // sources of every kind between every pair of nodes, all nodes loaded
    for n in 4..=5 {
        cx.family(&format!("{} resistively loaded nodes with all sequences of sources", n - 1));
        let al = alphabet(n, "VIEGs", n == 4);
        let depth = if n == 4 { 2 } else { cx.by(1, 2) };
        let load: Vec<El> = (1..n).map(|k| R(k, 0, [1.0, 2.0, 4.0, 5.0][k - 1])).chain([R(n - 1, 1, 2.0)]).collect();
        for len in 1..=depth {
            tuples(len, al.len(), &mut |ix| {
                let mk = |first: bool| -> Vec<El> {
                    let mut s = pick(&al, ix);
                    if first {
                        s.extend(load.iter().cloned());
                        s
                    } else {
                        let mut l = load.clone();
                        l.extend(s);
                        l
                    }
                };
                cx.case(&|| show(&mk(true)), &mut |c| check_exact(&mk(true), false, c));
                cx.case(&|| show(&mk(false)), &mut |c| check_exact(&mk(false), false, c));
            });
        }
    }

    // every order of the cards, every polarity
    cx.family("all orders of the elements of larger circuits");
    for base in orders() {
        permutations(base.len(), &mut |p| {
            cx.case(&|| show(&pick(&base, p)), &mut |c| check_exact(&pick(&base, p), false, c));
        });
    }
    cx.family("all node numberings of larger circuits");
    for base in orders() {
        let n = n_nodes(&base);
        permutations(n - 1, &mut |p| {
            let f = |x: usize| if x == 0 { 0 } else { p[x - 1] + 1 };
            let mk = || -> Vec<El> { base.iter().map(|e| e.map(&f)).collect() };
            cx.case(&|| show(&mk()), &mut |c| check_exact(&mk(), false, c));
        });
    }

    // the whole path from text
    cx.family("through the reader: all sequences of up to 2 elements and sets of 3, on 3 nodes");
    let al = alphabet(3, "RIVEGCs", false);
    for len in 1..=2 {
        tuples(len, al.len(), &mut |ix| {
            cx.case(&|| show(&pick(&al, ix)), &mut |c| check_exact(&pick(&al, ix), true, c));
        });
    }
    multisets(3, al.len(), &mut |ix| {
        cx.case(&|| show(&pick(&al, ix)), &mut |c| check_exact(&pick(&al, ix), true, c));
    });

    cx.family("scaled by powers of two: all sets of up to 3 elements on 3 nodes and the larger circuits, conductances from 1e-15 to 1e12");
    let al = alphabet(3, "RIvEGCs", false);
    for k in cx.by([-40, 20, 48], [-40, 30, 48]) {
        for len in 2..=cx.by(3, 4) {
            multisets(len, al.len(), &mut |ix| {
                cx.case(&|| show(&scaled(&pick(&al, ix), k)), &mut |c| check_scaled(&pick(&al, ix), k, c));
            });
        }
        for base in orders() {
            permutations(base.len(), &mut |p| {
                cx.case(&|| show(&scaled(&pick(&base, p), k)), &mut |c| check_scaled(&pick(&base, p), k, c));
            });
        }
    }

    cx.family("the linear decks that come with the simulator at several levels, and those with one value another one or one card rewired (equations checked)");
    for sh in shipped::all().into_iter().filter(|sh| !sh.has("D")) {
        for level in [1.0, 0.0, -0.5] {
            let d = shipped::at_level(&sh.deck, level);
            let mut v = vec![d.clone()];
            if level == 1.0 {
                v.extend(shipped::revalued(&d, &|_, v| vec![v * 3.0, v * 0.01, -v]));
                v.extend(shipped::rewired(&d));
                v.extend(shipped::recut(&d));
            }
            for e in v {
                cx.case(&|| format!("{}\n{}", sh.name, e.text()), &mut |c| match exact_dc(&to_els(&flatten(&e)?)?.0) {
                    Exact::Unique(_) => check_deck(&e, true, c),
                    _ => {
                        c.skipped = true;
                        Ok(())
                    }
                });
            }
        }
    }

    cx.family("values over 18 decades on fixed topologies (equations checked)");
    let rs: &[f64] = cx.by(&[1e-3, 1.0, 47e3, 1e9], &[1e-3, 0.22, 1.0, 1e3, 47e3, 1e9]);
    let vs: &[f64] = cx.by(&[-1e-6, 3.3, 1e4, 0.0], &[-1e-9, -1e-6, 3.3, 1e4, 0.0]);
    let is: &[f64] = &[1e-12, -1e-3, 20.0];
    for t in 0..TOPOLOGIES {
        tuples(5, rs.len(), &mut |r| {
            tuples(2, vs.len(), &mut |v| {
                for i in is {
                    let mk = || topology(t, &r.iter().map(|k| rs[*k]).collect::<Vec<_>>(), vs[v[0]], vs[v[1]], *i);
                    cx.case(&|| show(&mk()), &mut |c| check_residual(&mk(), c));
                }
            });
        });
    }
}

fn orders() -> Vec<Vec<El>> {
    vec![
        // unbalanced bridge driven by a floating source
        vec![V(1, 4, 5.0), R(1, 2, 1.0), R(2, 4, 2.0), R(1, 3, 4.0), R(3, 4, 5.0), R(2, 3, 2.0), R(4, 0, 1.0)],
        // stacked sources, opposing polarities
        vec![V(1, 0, 1.0), V(1, 2, 2.0), V(3, 2, 4.0), R(3, 4, 1.0), R(4, 0, 1.0), I(0, 4, 2.0), R(2, 4, 4.0)],
        // amplifier: vcvs with feedback, vccs load
        vec![V(1, 0, 1.0), R(1, 2, 1.0), E(3, 0, 0, 2, 100.0), R(2, 3, 4.0), G(3, 4, 2, 1, 0.5), R(4, 0, 2.0), R(3, 4, 1.0)],
        // cascade of vcvs
        vec![I(0, 1, 1.0), R(1, 0, 2.0), E(2, 0, 1, 0, 3.0), E(3, 2, 2, 0, 2.0), E(4, 0, 3, 1, -1.0), R(4, 3, 1.0), G(0, 1, 4, 0, 0.25)],
        // five sources of all kinds
        vec![Vs(1, 0, [1.0, 2.0, 3.0]), Vp(2, 1, PwlSpec { pat: vec![(0.0, 2.0)], td: 0.0, rep: false }), E(3, 2, 1, 0, 2.0), V(4, 3, 1.0), Is(4, 0, [2.0, 1.0, 1.0]), R(4, 0, 2.0), I(2, 3, 1.0)],
    ]
}

const TOPOLOGIES: usize = 4;
fn topology(t: usize, r: &[f64], v1: f64, v2: f64, i: f64) -> Vec<El> {
    match t {
        0 => vec![V(1, 0, v1), R(1, 2, r[0]), R(2, 0, r[1]), R(2, 3, r[2]), R(3, 0, r[3]), R(1, 3, r[4]), V(4, 3, v2), I(4, 0, i)],
        1 => vec![I(0, 1, i), R(1, 2, r[0]), R(2, 3, r[1]), R(3, 0, r[2]), R(1, 0, r[3]), V(2, 4, v1), R(4, 0, r[4]), V(5, 4, v2), R(5, 0, r[0])],
        2 => vec![R(1, 0, r[0]), R(1, 2, r[1]), G(2, 0, 1, 0, 1.0 / r[2]), R(2, 0, r[3]), V(1, 3, v1), R(3, 0, r[4]), V(4, 0, v2), R(4, 1, r[2]), I(2, 1, i)],
        _ => vec![V(1, 0, v1), R(1, 2, r[0]), R(2, 0, r[1]), E(3, 0, 2, 0, 10.0), R(3, 4, r[2]), R(4, 0, r[3]), I(0, 4, i), V(5, 2, v2), R(5, 3, r[4])],
    }
}

fn check22(els: &[El], c: &mut Case) -> Result<(), String> {
    if !contiguous(els) {
        c.skipped = true;
        return Ok(());
    }
    let ex = exact_dc(els);
    let kind = match ex {
        Exact::Unique(_) => 0,
        Exact::None => 1,
        Exact::Many => 2,
        Exact::Unknown => 3,
    };
    let cfg = cfg();
    let res = run_dc(&build(els), &cfg);
    c.steps(res.iterations);
    c.validated();
    let ok = res.accepted(&cfg);
    c.saw(&(kind, ok, res.iterations, n_nodes(els)));
    if ok {
        check_equations(els, n_nodes(els), &branch_in_order(els), &res.x, 0.0, None, 1.0, None)
            .map_err(|m| format!("reported as solved after {} iterations but {}; x={:?}", res.iterations, m, res.x))?;
        if kind == 1 && res.x.iter().all(|v| v.abs() < 1e9) {
            return Err(format!("contradictory equations reported as solved: {:?}", res.x));
        }
    }
    Ok(())
}

fn run22(cx: &mut Cx) {
    cx.family("all sequences of up to 3 elements on 3 nodes, solvable or not");
    let al = alphabet(3, "RIVvEGCs", false);
    for len in 1..=3 {
        tuples(len, al.len(), &mut |ix| {
            cx.case(&|| show(&pick(&al, ix)), &mut |c| check22(&pick(&al, ix), c));
        });
    }
    cx.family("elements with their ends on one node, sources controlling themselves, negative resistances: all sets of up to 3 with others on 3 nodes, solvable or not, forwards and backwards");
    with_loops(cx, 3, &mut |els, c| check22(els, c));
    cx.family("all sets of 4 elements on 3 nodes, solvable or not, forwards and backwards");
    multisets(4, al.len(), &mut |ix| {
        cx.case(&|| show(&pick(&al, ix)), &mut |c| check22(&pick(&al, ix), c));
        cx.case(&|| show(&rev(pick(&al, ix))), &mut |c| check22(&rev(pick(&al, ix)), c));
    });
    cx.family("all sets of elements on 4 nodes, solvable or not");
    let al = alphabet(4, cx.by("RCIv", "RCIVvs"), false);
    for len in 3..=cx.by(4, 5) {
        multisets(len, al.len(), &mut |ix| {
            cx.case(&|| show(&pick(&al, ix)), &mut |c| check22(&pick(&al, ix), c));
        });
    }
}
