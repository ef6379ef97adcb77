//! C08 subcircuit expansion, C09 parameters, C10 node identity
use super::util::*;
use crate::harness::*;
use crate::hier::*;
use crate::net::*;
use crate::shipped;

pub fn def08() -> PropDef {
    PropDef {
        id: "C08",
        run: run08,
        rule: "decks with every element kind in subcircuits, every way to connect up to two instances of subcircuits with 1 to 4 ports to nets, ground included; every three-level hierarchy of small bodies with every connection of the inner instance; equal names at different levels; chains and trees of instances; the expanded circuit must be the reference flattening, element by element and net by net; and the decks that come with the simulator (of a kind the property is about) and those one edit away from them",
        hang_s: 20,
    }
}
pub fn def09() -> PropDef {
    PropDef {
        id: "C09",
        run: run09,
        rule: "three-level hierarchies with every choice of parameter names, of defaults and overrides (none, number, reference to the scope above), of element values (number or parameter) per element kind, with several instances in every order; the expanded values must be those of the reference resolution; and the decks that come with the simulator (of a kind the property is about) and those one edit away from them",
        hang_s: 20,
    }
}
pub fn def10() -> PropDef {
    PropDef {
        id: "C10",
        run: run10,
        rule: "every assignment of a list of names, including the ground aliases and near misses of them, to the terminals of small circuits, flat and through two levels of ports; every connection of an instance to nets with unused ports; every sequence of node operations on a circuit up to a depth; nodes must be equal exactly when the reference says so and numbered without gaps",
        hang_s: 20,
    }
}

/// Expand a deck and compare it with the reference, and its DC solution with its equations
pub fn check_deck(d: &Deck, solve: bool, c: &mut Case) -> Result<(), String> {
    check_text(&d.text(), d, solve, c)
}

/// The same, for a deck in other words
pub fn check_text(text: &str, d: &Deck, solve: bool, c: &mut Case) -> Result<(), String> {
    let f = flatten(d)?;
    let (ckt, cf) = read_deck(text)?;
    c.validated();
    c.steps(f.prims.len());
    let map = compare(&f, &ckt)?;
    let lab = labels(&f, &map);
    for (k, l) in lab.iter().enumerate() {
        if ckt.node_id_lut.get(&k) != Some(l) {
            return Err(format!("node {} is called {:?}, expected {:?}", k, ckt.node_id_lut.get(&k), l));
        }
    }
    c.saw(&(f.prims.len(), lab.len(), f.prims.iter().map(|p| (p.nets.clone(), p.vals.iter().map(|v| v.to_bits()).collect::<Vec<_>>())).collect::<Vec<_>>()));
    if solve {
        let (els, used) = to_els(&f)?;
        let res = run_dc(&ckt, &cf);
        c.steps(res.iterations);
        if !res.accepted(&cf) {
            return Err(format!("the operating point wasn't found: {} iterations, {:?}", res.iterations, res.x));
        }
        let nn = used.len();
        let br = branches(&f, &map, &ckt)?;
        let mut x: Vec<f64> = used.iter().map(|k| res.x[map[k]]).collect();
        x.extend(br.iter().map(|b| res.x[nn + b]));
        let order: Vec<usize> = (0..br.len()).collect();
        check_equations(&els, nn, &order, &x, 0.0, None, impl_vt(), Some(Slack { reltol: cf.RELTOL, vntol: cf.VNTOL }))?;
    }
    Ok(())
}

fn run_case(cx: &mut Cx, d: &Deck, solve: bool) {
    cx.case(&|| d.text(), &mut |c| check_deck(d, solve, c));
}

/// A deck which refers to a parameter its scope doesn't have
fn must_fail(d: &Deck, c: &mut Case) -> Result<(), String> {
    c.steps(1);
    c.validated();
    let t = d.text();
    match guard(|| read_deck(&t)) {
        Ok(Ok(_)) => Err("a parameter which isn't in the scope has a value".to_string()),
        _ => Ok(()),
    }
}

/// bodies over ports p q (r t) and internal m k, one for every kind of element and some mixtures
fn bodies() -> Vec<(usize, Vec<Item>)> {
    let pw = Val::Pwl(PwlSpec { pat: vec![(0.0, 1.0), (2.0, 3.0)], td: 0.5, rep: true });
    let sn = Val::Sin([1.0, 2.0, 50.0]);
    vec![
        (1, vec![el("R1", "p 0", n(1e3))]),
        (1, vec![el("R1", "gnd p", n(1e3)), el("C1", "p GND", n(1e-6)), el("I1", "0 p", n(1e-3))]),
        (2, vec![el("R1", "p q", n(10.0))]),
        (2, vec![el("C1", "q p", n(1e-6)), el("R1", "p q", n(3.0))]),
        (2, vec![el("D1", "p q", Val::None), el("R1", "p q", n(100.0))]),
        (2, vec![el("V1", "p m", n(2.0)), el("R1", "m q", n(20.0))]),
        (2, vec![el("V1", "p m", sn.clone()), el("R1", "m q", n(30.0)), el("R2", "m 0", n(50.0))]),
        (2, vec![el("V1", "m p", pw.clone()), el("R1", "m q", n(30.0)), el("V2", "m k", n(1.0)), el("R2", "k 0", n(4.0))]),
        (2, vec![el("I1", "p q", n(0.25)), el("R1", "p q", n(7.0)), el("I2", "q m", sn), el("R2", "m 0", n(2.0))]),
        (2, vec![el("E1", "m 0 p q", n(3.0)), el("R1", "m q", n(30.0)), el("R2", "p q", n(5.0))]),
        (2, vec![el("G1", "p q m 0", n(1e-3)), el("R1", "m p", n(30.0)), el("R2", "m 0", n(5.0))]),
        (2, vec![el("R1", "p m", n(1.0)), el("R2", "m k", n(2.0)), el("R3", "k q", n(3.0)), el("C1", "m 0", n(1e-9)), el("D1", "k 0", Val::None)]),
        (3, vec![el("R1", "p q", n(1.0)), el("R2", "q r", n(2.0)), el("R3", "r p", n(3.0))]),
        (3, vec![el("E1", "r m p q", n(2.0)), el("R1", "m 0", n(8.0)), el("R2", "p q", n(9.0))]),
        (4, vec![el("G1", "p q r t", n(0.01)), el("R1", "p t", n(8.0)), el("R2", "q r", n(9.0)), el("E1", "m 0 r t", n(-1.0)), el("R3", "m p", n(6.0))]),
    ]
}
const PORTS: [&str; 4] = ["p", "q", "r", "t"];

/// resistors to ground on every top-level net and a supply
fn top_loads(nets: &[&str]) -> Vec<Item> {
    let mut v = vec![];
    for (k, x) in nets.iter().enumerate() {
        v.push(el(&format!("Rg{}", k), &format!("{} 0", x), n(100.0 + k as f64)));
    }
    v.push(el("Isup", "0 a", n(0.01)));
    v
}

fn run08(cx: &mut Cx) {
    // --- one level
    let nets = ["a", "b", "c", "0", "gnd"];
    for (bi, (np, body)) in bodies().into_iter().enumerate() {
        cx.family(&format!("one instance of body {} ({} ports), every connection", bi, np));
        tuples(np, nets.len(), &mut |ix| {
            let conns: Vec<&str> = ix.iter().map(|k| nets[*k]).collect();
            for subs_first in [false, true] {
                let mut top = top_loads(&["a", "b", "c"]);
                top.push(x("X1", &conns.join(" "), "blk"));
                run_case(cx, &Deck { top, subs: vec![sub("blk", &PORTS[..np].join(" "), body.clone())], control: s("op"), subs_first }, false);
            }
        });
        if np <= 3 {
            cx.family(&format!("two instances of body {} ({} ports), every connection", bi, np));
            let nets = if np < 3 || cx.thorough() { &nets[..] } else { &nets[..4] };
            tuples(2 * np, nets.len(), &mut |ix| {
                let c1: Vec<&str> = ix[..np].iter().map(|k| nets[*k]).collect();
                let c2: Vec<&str> = ix[np..].iter().map(|k| nets[*k]).collect();
                let mut top = vec![x("X1", &c1.join(" "), "blk")];
                top.extend(top_loads(&["a", "b", "c"]));
                top.push(x("X2", &c2.join(" "), "blk"));
                run_case(cx, &Deck { top, subs: vec![sub("blk", &PORTS[..np].join(" "), body.clone())], control: s("op"), subs_first: false }, false);
            });
        }
    }

    // --- the DC solution of hierarchies, when it's well defined
    cx.family("solved: instances in series with a load");
    for (bi, (np, body)) in bodies().into_iter().enumerate() {
        if np == 2 {
            for conns in [("a b", "b c"), ("b a", "c b"), ("a 0", "b 0"), ("a b", "c a"), ("0 a", "b c")] {
                let mut top = top_loads(&["a", "b", "c"]);
                top.push(x("X1", conns.0, "blk"));
                top.push(x("X2", conns.1, "blk"));
                let d = Deck { top, subs: vec![sub("blk", "p q", body.clone())], control: s("op"), subs_first: bi % 2 == 0 };
                run_case(cx, &d, true);
            }
        }
    }

    // --- two levels: mid contains an instance of inner with every connection, and is itself
    //     connected every way; the names are the same at all levels
    cx.family("three levels with the same names, every connection of the inner and outer instance");
    let all = bodies();
    let inner_nets = ["p", "q", "m", "0"];
    let outer_nets = ["p", "q", "m", "gnd"];
    for bi in 2..12usize {
        let body = &all[bi].1;
        tuples(2, inner_nets.len(), &mut |i| {
            tuples(2, inner_nets.len(), &mut |j| {
                tuples(2, outer_nets.len(), &mut |o| {
                    let mid = vec![
                        el("R1", "p m", n(11.0)),
                        x("X1", &format!("{} {}", inner_nets[i[0]], inner_nets[i[1]]), "in"),
                        el("R2", "m q", n(12.0)),
                        x("X2", &format!("{} {}", inner_nets[j[0]], inner_nets[j[1]]), "in"),
                    ];
                    let top = vec![
                        el("V1", "p 0", n(5.0)),
                        el("R1", "p q", n(13.0)),
                        x("X1", &format!("{} {}", outer_nets[o[0]], outer_nets[o[1]]), "mid"),
                        el("R2", "m 0", n(14.0)),
                        el("R3", "q 0", n(15.0)),
                        x("X2", "q m", "mid"),
                    ];
                    let subs = vec![sub("mid", "p q", mid), sub("in", "p q", body.clone())];
                    run_case(cx, &Deck { top, subs, control: s("op"), subs_first: false }, false);
                });
            });
        });
    }

    cx.family("three levels, bodies with three ports, every connection of the inner instance");
    for bi in [12usize, 13] {
        let body = &all[bi].1;
        tuples(3, inner_nets.len(), &mut |i| {
            tuples(cx.deep(2, 3, 4), inner_nets.len(), &mut |j| {
                let mid = vec![
                    el("R1", "p m", n(11.0)),
                    x("X1", &i.iter().map(|k| inner_nets[*k]).collect::<Vec<_>>().join(" "), "in"),
                    el("R2", "m q", n(12.0)),
                    x("X2", &format!("{} {} {}", inner_nets[j[0]], inner_nets[j[1]], inner_nets[j.get(2).copied().unwrap_or(2)]), "in"),
                ];
                let top = vec![
                    el("V1", "p 0", n(5.0)),
                    el("R1", "p q", n(13.0)),
                    x("X1", "p m", "mid"),
                    el("R2", "m 0", n(14.0)),
                    el("R3", "q 0", n(15.0)),
                    x("X2", "q m", "mid"),
                ];
                let subs = vec![sub("mid", "p q", mid), sub("in", "p q r", body.clone())];
                run_case(cx, &Deck { top, subs, control: s("op"), subs_first: true }, false);
            });
        });
    }

    cx.family("ports in another order and with the names of other nets");
    permutations(3, &mut |pp| {
        permutations(3, &mut |cc| {
            permutations(3, &mut |qq| {
                let nm = ["a", "b", "c"];
                let inner_ports: Vec<&str> = pp.iter().map(|k| nm[*k]).collect();
                let conns: Vec<&str> = cc.iter().map(|k| nm[*k]).collect();
                let mid_ports: Vec<&str> = qq.iter().map(|k| nm[*k]).collect();
                let inner = vec![el("R1", "a b", n(1.0)), el("C1", "b c", n(2.0)), el("D1", "c a", Val::None), el("V1", "a 1", n(1.0)), el("R2", "1 c", n(9.0))];
                let mid = vec![x("Xin", &conns.join(" "), "in"), el("R1", "a c", n(3.0))];
                let mut top = top_loads(&["a", "b", "c"]);
                top.push(x("Xm", "a b c", "mid"));
                top.push(x("Xn", "c a b", "in"));
                let subs = vec![sub("in", &inner_ports.join(" "), inner), sub("mid", &mid_ports.join(" "), mid)];
                run_case(cx, &Deck { top, subs, control: s("op"), subs_first: true }, true);
            });
        });
    });

    cx.family("names of instances, subcircuits, ports and nets");
    for iname in ["X1", "X", "Xfoo", "X_1", "X10", "XX1", "XR1", "Xblk", "X2"] {
        for sname in ["blk", "X1", "R1", "a", "b2", "0sub", "sub_x", "gnd", "p"] {
            for port in ["p", "a", "1", "X1", "in_1", "R1", "P", "out"] {
                for node in ["a", "1", "2", "p", "X1", "in_1", "blk"] {
                    let body = vec![el("R1", &format!("{} int", port), n(10.0)), el("R2", "int 0", n(20.0)), el("C1", &format!("{} int", port), n(1.0))];
                    let top = vec![el("V1", &format!("{} 0", node), n(5.0)), x(iname, node, sname), x("X77", &format!("{}z", node), sname), el("R1", &format!("{} {}z", node, node), n(1.0))];
                    for subs_first in [false, true] {
                        run_case(cx, &Deck { top: top.clone(), subs: vec![sub(sname, port, body.clone())], control: s("op"), subs_first }, true);
                    }
                }
            }
        }
    }

    cx.family("two subcircuits, instances, ports and nets with names that are alike, in every order");
    let alike = [("s", "s2"), ("div", "div2"), ("ab", "b"), ("a", "b"), ("blk", "Blk"), ("s1", "s_1"), ("s1", "s01"), ("1", "11"), ("x1", "1x"), ("m", "n"), ("blk", "blk_"), ("0a", "a"), ("gnd1", "gnd2"), ("00", "000")];
    for (s1, s2) in alike {
        for (i1, i2) in alike {
            for (n1, n2) in alike {
                // not all the combinations: two of the three kinds of names stay the same
                if [s1 != "s", i1 != "s", n1 != "s"].iter().filter(|b| **b).count() > cx.by(1, 2) {
                    continue;
                }
                for order in 0..8 {
                    for nested in [false, true] {
                        let flip = |k: usize| order >> k & 1 == 1;
                        let (s1, s2) = if flip(0) { (s2, s1) } else { (s1, s2) };
                        let (i1, i2) = if flip(1) { (i2, i1) } else { (i1, i2) };
                        let (n1, n2) = if flip(2) { (n2, n1) } else { (n1, n2) };
                        let (x1, x2) = (format!("X{}", i1), format!("X{}", i2));
                        // both with both nets, one as a port and one inside
                        let mut first = sub(s1, n1, vec![el("R1", &format!("{} {}", n1, n2), n(1.0)), el("R2", &format!("{} 0", n2), n(2.0))]);
                        let second = sub(s2, n2, vec![el("R1", &format!("{} {}", n1, n2), n(3.0)), el("R2", &format!("{} 0", n1), n(5.0)), el("C1", &format!("{} {}", n1, n2), n(1.0))]);
                        let mut top = vec![el("V1", &format!("{} {}", n1, n2), n(5.0)), el("R1", &format!("{} 0", n2), n(7.0)), x(&x1, n1, s1)];
                        if nested {
                            first.items.insert(1, x(&x2, n2, s2));
                            first.items.push(x(&x1, n1, s2));
                        }
                        top.push(x(&x2, n2, s2));
                        for subs in [vec![first.clone(), second.clone()], vec![second.clone(), first.clone()]] {
                            run_case(cx, &Deck { top: top.clone(), subs, control: s("op"), subs_first: flip(1) }, true);
                        }
                    }
                }
            }
        }
    }

    cx.family("several subcircuits, every order of definition and of use");
    permutations(4, &mut |dp| {
        permutations(4, &mut |up| {
            for subs_first in [false, true] {
                let defs = [
                    sub("s1", "p q", vec![el("R1", "p q", n(1.0)), x("X1", "p m", "s2"), el("R2", "m q", n(5.0))]),
                    sub("s2", "p q", vec![el("R1", "q p", n(2.0)), x("X1", "m q", "s3"), el("V1", "m p", n(0.5))]),
                    sub("s3", "q p", vec![el("R1", "p q", n(3.0)), el("E1", "k 0 p q", n(2.0)), el("R2", "k q", n(6.0))]),
                    sub("s4", "p q", vec![x("X1", "q p", "s1"), x("X2", "p q", "s3"), el("I1", "p q", n(0.1))]),
                ];
                let mut top = top_loads(&["a", "b"]);
                for (k, u) in up.iter().enumerate() {
                    top.push(x(&format!("X{}", k), ["a b", "b a", "a 0", "0 b"][k], ["s1", "s2", "s3", "s4"][*u]));
                }
                let d = Deck { top, subs: dp.iter().map(|k| defs[*k].clone()).collect(), control: s("op"), subs_first };
                run_case(cx, &d, true);
            }
        });
    });

    cx.family("instances with the same name in the same scope are an error, in different scopes they are not");
    for (na, nb) in [("X1", "X1"), ("X1", "X2"), ("X", "X"), ("X", "Xx"), ("Xab", "Xab"), ("Xab", "XAB"), ("X1", "X11")] {
        for ca in ["a b", "b a", "a a", "a 0"] {
            for cb in ["a b", "b c", "a a", "a 0"] {
                for (ta, tb) in [("blk", "blk"), ("blk", "blk2")] {
                    for between in 0..3 {
                        for scope in 0..3 {
                            let pair = |items: &mut Vec<Item>, ca: &str, cb: &str| {
                                items.push(x(na, ca, ta));
                                if between > 0 {
                                    items.push(el("R9", "a b", n(5.0)));
                                }
                                if between > 1 {
                                    items.push(x("X99", "b a", "blk"));
                                }
                                items.push(x(nb, cb, tb));
                            };
                            let mut top = top_loads(&["a", "b", "c"]);
                            let mut subs = vec![
                                sub("blk", "p q", vec![el("R1", "p m", n(1.0)), el("R2", "m q", n(2.0))]),
                                sub("blk2", "p q", vec![el("R1", "q m", n(3.0)), el("R2", "m p", n(4.0))]),
                            ];
                            match scope {
                                0 => pair(&mut top, ca, cb),
                                1 => {
                                    let mut items = vec![el("R1", "a 0", n(9.0))];
                                    pair(&mut items, ca, cb);
                                    subs.push(sub("mid", "a b c", items));
                                    top.push(x("X1", "a b c", "mid"));
                                }
                                _ => {
                                    subs.push(sub("mid", "a b c", vec![x(nb, cb, tb), el("R1", "a c", n(9.0))]));
                                    top.push(x(na, ca, ta));
                                    top.push(x(&format!("{}m", na), "a b c", "mid"));
                                }
                            }
                            let d = Deck { top, subs, control: s("op"), subs_first: false };
                            if scope < 2 && na == nb {
                                cx.case(&|| d.text(), &mut |c| {
                                    c.steps(1);
                                    c.validated();
                                    let t = d.text();
                                    match std::panic::catch_unwind(|| read_deck(&t)) {
                                        Ok(Ok(_)) => Err(format!("there are two {} in one scope, and no error", na)),
                                        _ => Ok(()),
                                    }
                                });
                            } else {
                                run_case(cx, &d, true);
                            }
                        }
                    }
                }
            }
        }
    }

    cx.family("the decks that come with the simulator, and those with one card rewired, removed, repeated or moved");
    for sh in shipped::all() {
        cx.case(&|| format!("{}\n{}", sh.name, sh.plain()), &mut |c| check_text(&sh.plain(), &sh.deck, false, c));
        let d = &sh.deck;
        for e in std::iter::once(d.clone()).chain(shipped::rewired(d)).chain(shipped::recut(d)) {
            cx.case(&|| format!("{}\n{}", sh.name, e.text()), &mut |c| {
                check_deck(&e, false, c)
            });
        }
    }

    // what is called X1.X2 can be X2 in X1
    cx.family("instance names with dots in them");
    let names = ["X1", "X2", "X1.X2", "X2.X1", "X1.X2.X1", "X.", "X..", "X1."];
    tuples(4, names.len(), &mut |ix| {
        if ix[0] == ix[1] || ix[2] == ix[3] {
            return;
        }
        for form in 0..4 {
            let at = |k: usize| names[ix[k]];
            let leaf = |ports: [&str; 2], r: f64| vec![el("R1", &format!("{} k", ports[0]), n(r)), el("C1", &format!("k {}", ports[1]), n(r)), el("V1", "z k", n(r)), el("R2", &format!("z {}", ports[1]), n(r + 1.0))];
            let mut mid = leaf(["p", "q"], 2.0);
            mid.insert(form, x(at(2), "p k", if form % 2 == 0 { "leaf" } else { "other" }));
            mid.push(x(at(3), "k q", "other"));
            let top = vec![el("V1", "a 0", n(1.0)), x(at(0), "a b", "mid"), x(at(1), "b 0", if form < 2 { "other" } else { "mid" }), el("R1", "b 0", n(1.0))];
            let d = Deck { top, subs: vec![sub("mid", "p q", mid), sub("leaf", "p q", leaf(["p", "q"], 5.0)), sub("other", "u v", leaf(["u", "v"], 7.0))], control: s("op"), subs_first: form == 1 };
            // the subcircuits there are
            let mut paths = vec![s(at(0)), s(at(1))];
            for up in if form < 2 { vec![at(0)] } else { vec![at(0), at(1)] } {
                paths.extend([format!("{}.{}", up, at(2)), format!("{}.{}", up, at(3))]);
            }
            let many = paths.len();
            paths.sort();
            paths.dedup();
            cx.case(&|| d.text(), &mut |c| {
                if paths.len() == many {
                    return check_deck(&d, true, c);
                }
                c.validated();
                c.step();
                match guard(|| read_deck(&d.text())) {
                    Ok(Ok((ckt, _))) => compare(&flatten(&d)?, &ckt).map(|_| ()),
                    _ => Ok(()),
                }
            });
        }
    });

    // a body of every kind in every level, and any number of instances in a body
    let all = bodies();
    cx.family("deep chains of every body");
    for depth in 2..=cx.deep(40, 80, 250) {
        for (bi, (np, body)) in all.iter().enumerate() {
            // every depth for the ones up to 20, then a selection
            if depth > 20 && (depth + bi) % 4 != 0 {
                continue;
            }
            let ports: Vec<&str> = PORTS[..*np].to_vec();
            let mut subs = vec![];
            for l in 0..depth {
                let mut items = body.clone();
                if l + 1 < depth {
                    let mut conns: Vec<&str> = ports.clone();
                    conns.rotate_left(l % np);
                    if l % 3 == 2 {
                        conns[0] = "m";
                    }
                    items.insert((l + bi) % (items.len() + 1), x(&format!("X{}", l % 2), &conns.join(" "), &format!("s{}", l + 1)));
                }
                subs.push(sub(&format!("s{}", l), &ports.join(" "), items));
            }
            let nets = ["a", "b", "c", "d"];
            let mut top = top_loads(&nets[..*np]);
            top.push(x("X1", &nets[..*np].join(" "), "s0"));
            run_case(cx, &Deck { top, subs, control: s("op"), subs_first: depth % 2 == 0 }, false);
        }
    }
    cx.family("many instances and many elements in a body");
    for many in 1..=cx.deep(70, 140, 500) {
        for kind in 0..4 {
            let mut items: Vec<Item> = vec![];
            for k in 0..many {
                let here = if k == 0 { s("p") } else { format!("m{}", k) };
                let next = if k + 1 == many { s("q") } else { format!("m{}", k + 1) };
                match kind {
                    0 => items.push(x(&format!("X{}", k), &format!("{} {}", here, next), "leaf")),
                    1 => items.push(x(&format!("X{}", many - k), &format!("{} q", here), if k % 2 == 0 { "leaf" } else { "other" })),
                    2 => items.extend([el(&format!("R{}", k), &format!("{} {}", here, next), n(1.0 + k as f64)), el(&format!("C{}", k), &format!("{} 0", next), n(1.0 + k as f64)), el(&format!("V{}", k), &format!("v{} {}", k, here), n(k as f64))]),
                    _ => items.extend([el(&format!("E{}", k), &format!("{} 0 {} p", next, here), n(0.5 + k as f64)), el(&format!("G{}", k), &format!("p q {} {}", here, next), n(0.5 + k as f64)), el(&format!("D{}", k), &format!("p {}", next), Val::None), el(&format!("I{}", k), &format!("{} q", here), n(k as f64))]),
                }
            }
            let subs = vec![
                sub("body", "p q", items),
                sub("leaf", "p q", vec![el("R1", "p k", n(2.0)), el("R2", "k q", n(3.0)), el("C1", "k 0", n(4.0))]),
                sub("other", "u v", vec![el("V1", "u k", n(2.0)), el("R2", "k v", n(3.0))]),
            ];
            let mut top = top_loads(&["a", "b"]);
            top.push(x("X1", "a b", "body"));
            top.insert(0, x("X2", "b a", "body"));
            run_case(cx, &Deck { top, subs, control: s("op"), subs_first: many % 2 == 0 }, false);
        }
    }

    cx.family("chains and trees of instances");
    for depth in 1..=cx.deep(8, 16, 40) {
        for width in 1..=3usize {
            if width.pow(depth as u32) > 3000 {
                continue;
            }
            for kind in 0..3 {
                let mut subs = vec![];
                for l in 0..depth {
                    let mut items = match kind {
                        0 => vec![el("R1", "p m", n(1.0 + l as f64)), el("R2", "m q", n(2.0))],
                        1 => vec![el("V1", "p m", n(0.1)), el("R2", "m q", n(2.0)), el("C1", "m 0", n(1.0))],
                        _ => vec![el("R2", "p q", n(2.0)), el("E1", "m 0 p q", n(0.5)), el("R3", "m q", n(4.0))],
                    };
                    if l + 1 < depth {
                        for w in 0..width {
                            items.insert(w, x(&format!("X{}", w), ["m q", "p m", "q m"][w], &format!("s{}", l + 1)));
                        }
                    }
                    subs.push(sub(&format!("s{}", l), "p q", items));
                }
                let mut top = top_loads(&["a", "b"]);
                top.push(x("X1", "a b", "s0"));
                run_case(cx, &Deck { top, subs, control: s("op"), subs_first: false }, width == 1 || depth < 5);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy)]
enum Ov {
    None,
    Num,
    Ref,
}

fn run09(cx: &mut Cx) {
    // top -> X1/X2 mid (parameter A) -> Xi inner (parameter B) -> element
    // names: every equality pattern
    cx.family("three levels: parameter names x defaults x overrides x element kinds");
    let names = ["p", "q", "val"];
    for a in 0..2 {
        for b in 0..names.len() {
            for (oi, over_in) in [Ov::None, Ov::Num, Ov::Ref].iter().enumerate() {
                for over_x1 in [Ov::None, Ov::Num] {
                    for over_x2 in [Ov::None, Ov::Num] {
                        for mid_uses in [false, true] {
                            for kind in ["R", "C", "E", "G"] {
                                for order in 0..4 {
                                    let (pa, pb) = (names[a], names[b]);
                                    let elem = |v: Val, nm: &str| match kind {
                                        "R" => el(&format!("R{}", nm), "x y", v),
                                        "C" => el(&format!("C{}", nm), "x y", v),
                                        "E" => el(&format!("E{}", nm), "m 0 x y", v),
                                        _ => el(&format!("G{}", nm), "x y m 0", v),
                                    };
                                    let mut inner = vec![elem(Val::Param(s(pb)), "1"), el("R9", "x 0", n(50.0)), el("R8", "m y", n(60.0))];
                                    let ov = match over_in {
                                        Ov::None => vec![],
                                        Ov::Num => vec![(pb, n(33.0))],
                                        Ov::Ref => vec![(pb, Val::Param(s(pa)))],
                                    };
                                    let mut mid = vec![xp("Xi", "x y", "inner", &ov), x("Xj", "y x", "inner"), el("R7", "x y", n(70.0))];
                                    if mid_uses {
                                        mid.push(elem(Val::Param(s(pa)), "1"));
                                        mid.push(el("R6", "m y", n(65.0)));
                                    }
                                    let mk = |o: Ov, v: f64| match o {
                                        Ov::Num => vec![(pa, n(v))],
                                        _ => vec![],
                                    };
                                    let x1 = xp("X1", "a b", "mid", &mk(over_x1, 101.0));
                                    let x2 = xp("X2", "b a", "mid", &mk(over_x2, 202.0));
                                    let x3 = xp("X3", "a 0", "inner", &[(pb, n(303.0))]);
                                    if order & 1 == 1 {
                                        inner.rotate_left(1);
                                        mid.rotate_left(1);
                                    }
                                    let mut top = top_loads(&["a", "b"]);
                                    if order & 2 == 0 {
                                        top.extend([x1, x2, x3]);
                                    } else {
                                        top.extend([x3, x2, x1]);
                                    }
                                    let subs = vec![subp("mid", "x y", &[(pa, n(11.0))], mid), subp("inner", "x y", &[(pb, n(22.0))], inner)];
                                    run_case(cx, &Deck { top, subs, control: s("op"), subs_first: order & 1 == 1 }, false);
                                    let _ = oi;
                                }
                            }
                        }
                    }
                }
            }
        }
    }

    // two parameters: every assignment of which element uses which, every override subset and order
    cx.family("two parameters: uses x overrides x order of the overrides");
    for (n1, n2) in [("p", "q"), ("a", "aa"), ("r1", "r10"), ("R1", "x"), ("c", "C"), ("k", "X1")] {
        for uses in 0..8 {
            for ov1 in 0..5 {
                for ov2 in 0..5 {
                    for swap in [false, true] {
                        let u = |k: usize| Val::Param(s(if uses >> k & 1 == 0 { n1 } else { n2 }));
                        let body = vec![el("R1", "x y", u(0)), el("R2", "x y", u(1)), el("C3", "x y", u(2))];
                        let ov = |k: i32, base: f64| {
                            let mut o = match k {
                                0 => vec![],
                                1 => vec![(n1, n(base + 1.0))],
                                2 => vec![(n2, n(base + 2.0))],
                                3 => vec![(n1, n(base + 1.0)), (n2, n(base + 2.0))],
                                _ => vec![(n2, n(base + 2.0)), (n1, n(base + 1.0))],
                            };
                            if swap {
                                o.reverse();
                            }
                            o
                        };
                        let mut top = top_loads(&["a", "b"]);
                        top.push(xp("X1", "a b", "blk", &ov(ov1, 100.0)));
                        top.push(xp("X2", "b a", "blk", &ov(ov2, 200.0)));
                        let mut ps = [(n1, n(1.0)), (n2, n(2.0))];
                        if swap {
                            ps.reverse();
                        }
                        run_case(cx, &Deck { top, subs: vec![subp("blk", "x y", &ps, body)], control: s("op"), subs_first: swap }, false);
                    }
                }
            }
        }
    }

    // overrides crossing over: inner p = {q}, q = {p}
    cx.family("references which cross over, through up to three levels");
    for m in 0..16 {
        for o in 0..9 {
            for l3 in [false, true] {
                let pick = |k: usize| Val::Param(s(if m >> k & 1 == 0 { "p" } else { "q" }));
                let inner = vec![el("R1", "x y", Val::Param(s("p"))), el("R2", "x y", Val::Param(s("q")))];
                let mid = vec![xp("X1", "x y", "inner", &[("p", pick(0)), ("q", pick(1))]), xp("X2", "x y", "inner", &[("q", pick(2))]), el("R1", "x y", pick(3))];
                let outer = vec![xp("X1", "x y", "mid", &[("p", pick(1)), ("q", pick(2))]), el("R1", "x y", Val::Param(s("q")))];
                let ov = |k: usize| match k {
                    0 => vec![],
                    1 => vec![("p", n(100.0))],
                    _ => vec![("q", n(200.0))],
                };
                let nm = if l3 { "outer" } else { "mid" };
                let mut top = top_loads(&["a", "b"]);
                top.push(xp("X1", "a b", nm, &ov(o % 3)));
                top.push(xp("X2", "a b", nm, &ov(o / 3)));
                let ps = |v: f64| vec![("p", n(v)), ("q", n(v + 1.0))];
                let subs = vec![subp("inner", "x y", &ps(1.0), inner), subp("mid", "x y", &ps(10.0), mid), subp("outer", "x y", &ps(30.0), outer)];
                run_case(cx, &Deck { top, subs, control: s("op"), subs_first: l3 }, false);
            }
        }
    }

    cx.family("sibling subcircuits with the same parameter, every order of instances");
    permutations(4, &mut |p| {
        for nested in [false, true] {
            for over in 0..16usize {
                let mk = |nm: &str, d: f64| subp(nm, "x y", &[("v", n(d))], vec![el("R1", "x y", Val::Param(s("v"))), el("C1", "x m", Val::Param(s("v"))), el("R2", "m y", n(d))]);
                let inst: Vec<Item> = (0..4usize)
                    .map(|k| {
                        let o: Vec<(&str, Val)> = if over >> k & 1 == 1 { vec![("v", n(1000.0 + k as f64))] } else { vec![] };
                        xp(&format!("X{}", k), "x y", ["s1", "s2", "s1", "s3"][k], &o)
                    })
                    .collect();
                let items: Vec<Item> = p.iter().map(|k| inst[*k].clone()).collect();
                let mut top = top_loads(&["a", "b"]);
                let mut subs = vec![mk("s1", 1.0), mk("s2", 2.0), mk("s3", 3.0)];
                if nested {
                    subs.push(subp("box", "x y", &[("v", n(9.0))], items));
                    top.push(x("X1", "a b", "box"));
                    top.push(xp("X2", "a b", "box", &[("v", n(8.0))]));
                } else {
                    top.push(el("Rt", "x y", n(4.0)));
                    top.push(el("Rs", "x a", n(4.0)));
                    top.extend(items);
                }
                run_case(cx, &Deck { top, subs, control: s("op"), subs_first: false }, true);
            }
        }
    });

    cx.family("number forms in defaults and overrides");
    let lits = [("10k", 1e4), ("1uF", 1e-6), ("2e-3", 2e-3), ("-5", -5.0), ("+7m", 7e-3), ("0.5", 0.5), ("100", 100.0), ("3n", 3e-9), ("0", 0.0), ("-0.0", -0.0)];
    for (d, dv) in lits {
        for (o, ov) in lits {
            for k in 0..3 {
                let lit = |t: &str, v: f64| Val::Lit(s(t), v);
                let over = if k == 0 { vec![] } else { vec![("p", lit(o, ov))] };
                let body = vec![el("C1", "x y", Val::Param(s("p"))), el("G1", "x y x y", Val::Param(s("p"))), el("R1", "x y", n(1.0))];
                let mut top = top_loads(&["a", "b"]);
                top.push(xp("X1", "a b", "blk", &over));
                if k == 2 {
                    top.push(x("X0", "a b", "blk"));
                }
                run_case(cx, &Deck { top, subs: vec![subp("blk", "x y", &[("p", lit(d, dv))], body)], control: s("op"), subs_first: false }, false);
            }
        }
    }

    cx.family("defaults which refer to the scope of the instance");
    for (dp, dq) in [("r", "k"), ("k", "r"), ("r", "r"), ("p", "q")] {
        for ov in 0..9usize {
            for mid_ov in 0..4usize {
                for swap in [false, true] {
                    // the defaults of `inner` are looked up in `mid`, which has r, k, p and q
                    let inner = subp("inner", "x y", &[("p", par9(dp)), ("q", par9(dq))], vec![el("R1", "x y", par9("p")), el("C1", "x y", par9("q")), el("E1", "z 0 x y", par9("q")), el("R2", "z y", par9("p"))]);
                    let o = |k: usize, b: f64| match k {
                        0 => vec![],
                        1 => vec![("p", n(b + 1.0))],
                        _ => vec![("q", par9("k"))],
                    };
                    let mut items = vec![xp("X1", "x y", "inner", &o(ov % 3, 500.0)), xp("X2", "y x", "inner", &o(ov / 3, 600.0)), el("R1", "x y", par9("p"))];
                    if swap {
                        items.reverse();
                    }
                    let mid = subp("mid", "x y", &[("r", n(1.0)), ("k", n(2.0)), ("p", n(3.0)), ("q", n(4.0))], items);
                    let mo = match mid_ov {
                        0 => vec![],
                        1 => vec![("r", n(11.0)), ("p", n(13.0))],
                        2 => vec![("k", n(12.0))],
                        _ => vec![("q", n(14.0)), ("k", n(15.0))],
                    };
                    let mut top = top_loads(&["a", "b"]);
                    top.push(xp("X1", "a b", "mid", &mo));
                    top.push(x("X2", "b a", "mid"));
                    run_case(cx, &Deck { top, subs: vec![mid, inner], control: s("op"), subs_first: swap }, false);
                }
            }
        }
    }

    cx.family("the decks that come with the simulator, with one value another one or a parameter");
    for sh in shipped::all() {
        let d = &sh.deck;
        for e in shipped::revalued(d, &|_, v| vec![v * 3.0, -v, 1e-7]).into_iter().chain(shipped::parameterised(d)) {
            run_case(cx, &e, false);
        }
    }

    cx.family("many parameters, many overrides, long names");
    for many in 1..=cx.deep(40, 80, 300) {
        for form in 0..6 {
            let long = |k: usize| match form % 3 {
                0 => format!("p{}", k),
                1 => format!("{}{}", "a".repeat(many), k),
                _ => format!("{}{}", k + 1, "a".repeat(many)),
            };
            let names: Vec<String> = (0..many).map(long).collect();
            let defs: Vec<(&str, Val)> = names.iter().enumerate().map(|(k, p)| (p.as_str(), n(1.0 + k as f64))).collect();
            let body: Vec<Item> = (0..many).map(|k| el(&format!("{}{}", ["R", "C", "R"][k % 3], k), "x y", Val::Param(names[many - 1 - k].clone()))).collect();
            let inner = defs.iter().enumerate().map(|(k, d)| (d.0, Val::Param(names[(k + 1) % many].clone()))).collect::<Vec<_>>();
            let mut mid = body.clone();
            // every value one further, all but one, and none
            mid.push(xp("X1", "x y", "leaf", &inner));
            mid.insert(0, xp("X2", "x y", "leaf", &inner[..many - 1]));
            mid.push(x("X3", "y x", "leaf"));
            let mut over: Vec<(&str, Val)> = defs.iter().enumerate().map(|(k, d)| (d.0, n(1000.0 + k as f64))).collect();
            if form >= 3 {
                over.reverse();
            }
            let mut top = top_loads(&["a", "b"]);
            top.push(xp("X1", "a b", "mid", &over));
            top.push(xp("X2", "a b", "mid", &over[many / 2..]));
            top.insert(0, x("X3", "b a", "mid"));
            run_case(cx, &Deck { top, subs: vec![subp("mid", "x y", &defs, mid), subp("leaf", "x y", &defs, body)], control: s("op"), subs_first: form >= 3 }, false);
        }
    }
    cx.family("many instances with values of their own");
    for many in 1..=cx.deep(60, 120, 400) {
        for form in 0..4 {
            let k_of = |k: usize| if form % 2 == 0 { k } else { many - k };
            let over = |k: usize| -> Vec<(&'static str, Val)> {
                match k % 4 {
                    0 => vec![("p", n(10.0 + k as f64))],
                    1 => vec![],
                    2 => vec![("q", n(20.0 + k as f64))],
                    _ => vec![("q", n(30.0 + k as f64)), ("p", Val::Param(s("q")))],
                }
            };
            let all: Vec<Item> = (0..many).map(|k| xp(&format!("X{}", k_of(k)), "x y", "leaf", &over(k))).collect();
            let leaf = subp("leaf", "x y", &[("p", n(1.0)), ("q", Val::Param(s("p")))], vec![el("R1", "x y", Val::Param(s("p"))), el("C1", "x y", Val::Param(s("q"))), el("E1", "m 0 x y", Val::Param(s("p"))), el("R2", "m 0", n(1.0))]);
            let mid = subp("mid", "x y", &[("p", n(3.0)), ("q", n(4.0))], all);
            let mut top = top_loads(&["a", "b"]);
            if form < 2 {
                top.push(xp("X1", "a b", "mid", &[("q", n(5.0))]));
                top.push(xp("X2", "a b", "mid", &[("p", n(6.0))]));
            } else {
                for k in 0..many {
                    top.push(xp(&format!("X{}", k_of(k)), "a b", "one", &[("p", n(100.0 + k as f64))]));
                }
            }
            let one = subp("one", "x y", &[("q", n(2.0)), ("p", n(8.0))], vec![xp("X1", "x y", "leaf", &over(3)), xp("X2", "y x", "leaf", &over(1)), el("R1", "x y", Val::Param(s("p")))]);
            run_case(cx, &Deck { top, subs: vec![leaf, mid, one], control: s("op"), subs_first: form == 1 }, false);
        }
    }

    // a name belongs to the circuit around the instance, not to one further out
    cx.family("a parameter of one level, used at another: every pair of levels");
    for depth in 1..=cx.deep(6usize, 8, 10) {
        for def in 0..depth {
            for at in 0..depth {
                for kind in 0..5 {
                    for same in [false, true] {
                        for twice in [false, true] {
                            let mut subs = vec![];
                            for l in 0..depth {
                                let inst = if same { s("X1") } else { format!("X{}", l) };
                                let mut items = vec![el("R1", "x y", n(1.0 + l as f64))];
                                let mut ps: Vec<(&str, Val)> = vec![("p", n(2.0))];
                                if l == def {
                                    ps.push(("k", n(50.0 + l as f64)));
                                }
                                let mut ov = vec![];
                                if l == at {
                                    match kind {
                                        0 => items.push(el("R2", "x y", par9("k"))),
                                        1 => items.push(el("C2", "x y", par9("k"))),
                                        2 => items.push(el("G2", "x y y x", par9("k"))),
                                        3 => ov.push(("p", par9("k"))),
                                        _ => {}
                                    }
                                }
                                if kind == 4 && l == at + 1 {
                                    ps[0].1 = par9("k");
                                }
                                if l + 1 < depth {
                                    items.push(xp(&inst, "x y", &format!("s{}", l + 1), &ov));
                                }
                                items.push(el("R3", "x y", par9("p")));
                                subs.push(subp(&format!("s{}", l), "x y", &ps, items));
                            }
                            // the last level has no instance to override a parameter of
                            let used = if kind >= 3 { at + 1 < depth } else { true };
                            let mut top = top_loads(&["a", "b"]);
                            top.push(x("X1", "a b", "s0"));
                            if twice {
                                top.push(x("X0", "b a", "s0"));
                            }
                            let d = Deck { top, subs, control: s("op"), subs_first: same };
                            if !used || at == def {
                                run_case(cx, &d, false);
                            } else {
                                cx.case(&|| d.text(), &mut |c| must_fail(&d, c));
                            }
                        }
                    }
                }
            }
        }
    }

    cx.family("deep chains passing a parameter down");
    for depth in (1..=cx.deep(10, 20, 100)).chain([12, 15, 20, 30, 40]) {
        for start in 0..=depth {
            if depth > 20 && start % 7 != 0 {
                continue;
            }
            for rename in [false, true] {
                // levels from `start` on pass the value down, the ones above leave it alone
                let pname = |l: usize| if rename { format!("p{}", l) } else { s("p") };
                let mut subs = vec![];
                for l in 0..depth {
                    let mut items = vec![el("R1", "x y", Val::Param(pname(l)))];
                    if l + 1 < depth {
                        let (a, b) = (pname(l + 1), pname(l));
                        let ov = if l >= start { vec![(a.as_str(), Val::Param(b))] } else { vec![] };
                        items.push(xp("X1", "x y", &format!("s{}", l + 1), &ov));
                    }
                    let p = pname(l);
                    subs.push(subp(&format!("s{}", l), "x y", &[(p.as_str(), n(10.0 * (l + 1) as f64))], items));
                }
                let mut top = top_loads(&["a", "b"]);
                let p = pname(0);
                top.push(xp("X1", "a b", "s0", &[(p.as_str(), n(777.0))]));
                top.push(x("X2", "a b", "s0"));
                run_case(cx, &Deck { top, subs, control: s("op"), subs_first: false }, depth < 20);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------

fn par9(p: &str) -> Val {
    Val::Param(s(p))
}

fn run10(cx: &mut Cx) {
    let names = ["0", "gnd", "GND", "Gnd", "00", "a", "A", "aa", "gnd1", "1", "0a", "a_"];
    cx.family("every name on every terminal of two resistors");
    tuples(4, names.len(), &mut |ix| {
        let mut top: Vec<Item> = vec![];
        for (k, p) in ix.chunks(2).enumerate() {
            top.push(el(&format!("R{}", k), &format!("{} {}", names[p[0]], names[p[1]]), n(1.0 + k as f64)));
        }
        run_case(cx, &Deck { top, subs: vec![], control: s("op"), subs_first: false }, false);
    });

    cx.family("every name on every terminal of each kind of element");
    for kind in ["C", "D", "V", "I", "E", "G", "Vs", "Is", "Vp"] {
        let four = kind == "E" || kind == "G";
        let val = match kind {
            "D" => Val::None,
            "Vs" | "Is" => Val::Sin([1.0, 2.0, 3.0]),
            "Vp" => Val::Pwl(PwlSpec { pat: vec![(0.0, 1.0)], td: 0.0, rep: false }),
            _ => n(2.0),
        };
        tuples(if four { 4 } else { 2 }, if four { 7 } else { names.len() }, &mut |ix| {
            let ns: Vec<&str> = ix.iter().map(|k| names[*k]).collect();
            let top = vec![el(&kind[..1].to_string(), &ns.join(" "), val.clone()), el("R1", "a GND", n(1.0)), el("R2", "b 0", n(1.0))];
            run_case(cx, &Deck { top, subs: vec![], control: s("op"), subs_first: false }, false);
        });
    }

    cx.family("every name in a subcircuit and on its instances");
    let np = names.len();
    for inner in 0..np {
        for internal in 0..np {
            for c1 in 0..np {
                for c2 in 0..np {
                    if is_gnd(names[inner]) {
                        continue;
                    }
                    let body = vec![el("R1", &format!("{} z", names[inner]), n(1.0)), el("R2", &format!("{} z", names[internal]), n(2.0)), el("C1", &format!("z {}", names[inner]), n(3.0))];
                    let ports = format!("{} z", names[inner]);
                    let top = vec![
                        el("R1", &format!("{} {}", names[internal], names[c2]), n(5.0)),
                        x("X1", &format!("{} {}", names[c1], names[c2]), "blk"),
                        x("X2", &format!("{} {}", names[c2], names[internal]), "blk"),
                    ];
                    run_case(cx, &Deck { top, subs: vec![sub("blk", &ports, body)], control: s("op"), subs_first: false }, false);
                }
            }
        }
    }

    cx.family("ground through ports, two levels, every pattern");
    let outer = ["0", "gnd", "GND", "a", "b"];
    let inner = ["p", "q", "r", "0", "GND", "m"];
    tuples(3, outer.len(), &mut |o| {
        tuples(2, inner.len(), &mut |i| {
            for extra in 0..2 {
                let blk = vec![el("R1", "u v", n(1.0)), el("C1", "v gnd", n(2.0)), el("V1", "u w", n(1.0)), el("R2", "w GND", n(3.0))];
                let mut mid = vec![x("X1", &format!("{} {}", inner[i[0]], inner[i[1]]), "blk"), el("R1", "p q", n(4.0))];
                if extra == 1 {
                    mid.insert(0, el("C2", "r 0", n(6.0)));
                }
                let mut top = vec![el("R1", "a b", n(7.0)), el("R2", "b 0", n(8.0)), el("V1", "a GND", n(9.0))];
                let xm = x("X1", &format!("{} {} {}", outer[o[0]], outer[o[1]], outer[o[2]]), "mid");
                if extra == 1 {
                    top.insert(0, xm);
                } else {
                    top.push(xm);
                }
                run_case(cx, &Deck { top, subs: vec![sub("mid", "p q r", mid), sub("blk", "u v", blk)], control: s("op"), subs_first: extra == 1 }, false);
            }
        });
    });

    cx.family("nets with nothing on them: every subset of unused ports, solved");
    for used in 0..16usize {
        for pos in 0..3 {
            for second in 0..16usize {
                let nm = ["p", "q", "r", "t"];
                let mk = |u: usize| -> Vec<Item> { (0..4).filter(|k| u >> k & 1 == 1).map(|k| el(&format!("R{}", k), &format!("{} 0", nm[k]), n(10.0 + k as f64))).collect() };
                let x1 = x("X1", "d1 b d2 c", "s1");
                let x2 = x("X2", "b d1 e1 d3", "s2");
                let mut top = vec![el("V1", "b 0", n(5.0)), el("R1", "b c", n(1.0)), el("V2", "k c", n(2.0)), el("R2", "k 0", n(2.0)), el("R3", "c 0", n(3.0))];
                top.insert(pos * 2, x1);
                top.insert(pos, x2);
                let mut second_body = mk(second);
                second_body.push(x("X3", "p q r t", "s1"));
                let d = Deck { top, subs: vec![sub("s1", "p q r t", mk(used)), sub("s2", "p q r t", second_body)], control: s("op"), subs_first: false };
                run_case(cx, &d, true);
            }
        }
    }

    cx.family("long names which differ in one letter");
    for len in (1..=cx.deep(80, 300, 2000)).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 4097]) {
        for at in [0, len / 2, len - 1] {
            for (c1, c2) in [("b", "c"), ("b", "B"), ("b", "_"), ("1", "2")] {
                let long = |c: &str| format!("{}{}{}", "a".repeat(at), c, "a".repeat(len - 1 - at));
                let (u, v, w) = (long(c1), long(c2), long("a"));
                for form in 0..4 {
                    let flat = vec![el("R1", &format!("{} {}", u, v), n(1.0)), el("V1", &format!("{} {}", v, w), n(2.0)), el("C1", &format!("{} 0", w), n(3.0)), el("E1", &format!("{} 0 {} {}", u, w, v), n(4.0))];
                    let (top, subs) = match form {
                        0 => (flat, vec![]),
                        // ports and nets
                        1 => (vec![x("X1", &format!("{} {}", u, v), "s1"), x("X2", &format!("{} {}", v, w), "s1"), el("R1", &format!("{} {}", w, u), n(5.0))], vec![sub("s1", &format!("{} {}", v, u), flat)]),
                        // nets inside
                        2 => (vec![x("X1", "1 2", "s1"), x("X2", &format!("2 {}", w), "s1"), el("R1", "1 2", n(5.0))], vec![sub("s1", "p q", [flat, vec![el("R2", &format!("p {}", u), n(6.0)), el("R3", &format!("q {}", w), n(7.0))]].concat())]),
                        // names of instances
                        _ => (vec![x(&format!("X{}", u), "1 2", "s1"), x(&format!("X{}", v), "2 1", "s1"), x(&format!("X{}", w), "2 0", "s1")], vec![sub("s1", "p q", vec![el("R1", "p m", n(6.0)), el("R2", "m q", n(7.0))])]),
                    };
                    run_case(cx, &Deck { top, subs, control: s("op"), subs_first: at == 0 }, false);
                }
            }
        }
    }

    cx.family("all names over an alphabet, in one circuit");
    for (alphabet, max) in [("01", cx.deep(7, 8, 9)), ("gndGND", 3), ("aA_01xX", cx.deep(3, 3, 4)), ("0g.", 1), ("abcdefghijklmnopqrstuvwxyz", 2), ("0123456789", cx.deep(2, 3, 3)), ("gndl0_", 4)] {
        let letters: Vec<char> = alphabet.chars().filter(|c| *c != '.').collect();
        let mut all: Vec<String> = vec![];
        for len in 1..=max {
            tuples(len, letters.len(), &mut |ix| all.push(ix.iter().map(|k| letters[*k]).collect()));
        }
        for form in 0..4 {
            let mut names = all.clone();
            if form % 2 == 1 {
                names.reverse();
            }
            let cards: Vec<Item> = names.iter().enumerate().map(|(k, nm)| el(&format!("R{}", k), &format!("{} {}", nm, if k % 3 == 2 { "0" } else { &names[(k * 7 + 1) % names.len()] }), n(1.0 + k as f64))).collect();
            let d = if form < 2 {
                Deck { top: cards, subs: vec![], control: s("op"), subs_first: false }
            } else {
                // inside, with a first name as the port
                let port = names.iter().find(|nm| !is_gnd(nm)).unwrap().clone();
                Deck { top: vec![x("X1", &names[0], "s1"), el("R1", &format!("{} 0", names[names.len() - 1]), n(1.0)), x("X2", "top", "s1")], subs: vec![sub("s1", &port, cards)], control: s("op"), subs_first: form == 3 }
            };
            run_case(cx, &d, false);
        }
    }

    cx.family("every pair of short names over an alphabet");
    for (alphabet, max) in [("01", 4), ("gG0", 2), ("gnd0", 3)] {
        let letters: Vec<char> = alphabet.chars().collect();
        let mut all: Vec<String> = vec![];
        for len in 1..=max {
            tuples(len, letters.len(), &mut |ix| all.push(ix.iter().map(|k| letters[*k]).collect()));
        }
        for a in &all {
            for b in &all {
                let top = vec![el("R1", &format!("{} {}", a, b), n(1.0)), el("V1", &format!("{} 0", b), n(2.0)), el("R2", &format!("{} q", a), n(3.0))];
                run_case(cx, &Deck { top, subs: vec![], control: s("op"), subs_first: false }, false);
            }
        }
    }

    cx.family("a net or ground through many levels");
    for depth in 1..=cx.deep(40, 80, 300) {
        for (k, o) in ["0", "gnd", "GND", "a"].iter().enumerate() {
            for inner in 0..3 {
                let mut subs = vec![];
                for l in 0..depth {
                    let mut items = vec![el("R1", "p q", n(1.0 + l as f64)), el("C1", "q k", n(2.0)), el("R2", &format!("k {}", ["0", "GND", "q"][inner]), n(3.0))];
                    if l + 1 < depth {
                        items.insert((l + k) % 4, x(&format!("X{}", 1 + l % 2), ["q k", "p q", "gnd q"][(inner + l / 3) % 3], &format!("s{}", l + 1)));
                    }
                    subs.push(sub(&format!("s{}", l), ["p q", "q p"][l % 2], items));
                }
                let top = vec![el("R1", "a b", n(1.0)), x("X1", &format!("b {}", o), "s0"), el("V1", "b GND", n(1.0)), x("X2", &format!("{} {}", o, o), "s0")];
                run_case(cx, &Deck { top, subs, control: s("op"), subs_first: k == 1 }, false);
            }
        }
    }

    cx.family("many nets, many of them with nothing on them");
    for many in 1..=cx.deep(60, 120, 500) {
        for form in 0..4 {
            // every port, every second, every third, and just the last one is used
            let used = |k: usize| if form == 3 { k + 1 == many } else { k % (form + 1) == 0 };
            let ports: Vec<String> = (0..many).map(|k| format!("p{}", k)).collect();
            let body: Vec<Item> = (0..many).filter(|k| used(*k)).map(|k| el(&format!("R{}", k), &format!("p{} 0", k), n(1.0 + k as f64))).collect();
            let nets: Vec<String> = (0..many).map(|k| if k % 7 == 6 { s("GND") } else { format!("{}", many - k) }).collect();
            let rev: Vec<String> = nets.iter().rev().cloned().collect();
            let top = vec![x("X1", &nets.join(" "), "s1"), el("V1", "1 0", n(1.0)), x("X2", &rev.join(" "), "s2"), el("R1", &format!("{} 0", many), n(1.0))];
            let d = Deck { top, subs: vec![sub("s1", &ports.join(" "), body), sub("s2", &ports.join(" "), vec![x("X1", &ports.join(" "), "s1")])], control: s("op"), subs_first: form == 2 };
            run_case(cx, &d, false);
        }
    }

    cx.family("all sequences of node operations on a circuit");
    use tiny_spice::circuit::Circuit;
    let ops = ["gnd", "0", "GND", "a", "A", "b", "X1.a", "X1.gnd", "X1.X2.0", "X1.b"];
    for len in 1..=cx.deep(5, 6, 7) {
        tuples(len, ops.len(), &mut |ix| {
            cx.case(&|| ix.iter().map(|k| ops[*k]).collect::<Vec<_>>().join(", "), &mut |c| {
                let mut ckt = Circuit::new();
                let mut seen: Vec<&str> = vec![];
                c.validated();
                for k in ix {
                    let nm = ops[*k];
                    let local = nm.rsplit('.').next().unwrap_or(nm);
                    let want = if is_gnd(local) {
                        0
                    } else {
                        match seen.iter().position(|s| *s == nm) {
                            Some(k) => k + 1,
                            None => {
                                if let Some(g) = ckt.get_node_id(nm) {
                                    return Err(format!("{} is node {} before it was added", nm, g));
                                }
                                seen.push(nm);
                                seen.len()
                            }
                        }
                    };
                    let got = ckt.add_node(nm);
                    c.step();
                    if got != want || ckt.get_node_id(nm) != Some(want) {
                        return Err(format!("{} is node {} ({:?}), expected {}", nm, got, ckt.get_node_id(nm), want));
                    }
                }
                c.saw(&seen);
                Ok(())
            });
        });
    }
}
