//! C16 order of cards and choice of names
use super::c03::run_tran;
use super::util::*;
use crate::harness::*;
use crate::hier::*;
use crate::shipped;
use crate::net::PwlSpec;
use std::collections::HashMap;

pub fn def() -> PropDef {
    PropDef {
        id: "C16",
        run,
        rule: "for each of a family of flat and hierarchical decks: every permutation of its blocks (top-level cards, subcircuit definitions, control block), every permutation of the cards of a definition, every choice of up to 4 (thorough 5) cards out of 12, with sources at the top level and in subcircuits, in every order; and every injective renaming of its nodes, instances, elements, subcircuits and parameters into alphabets of look-alike names; every DC value, every waveform sample and every branch current compared, by net and source, with those of the deck as first written; and the decks that come with the simulator (of a kind the property is about) and those one edit away from them",
        hang_s: 30,
    }
}

/// Everything a simulation shows, by net and by source
struct Seen {
    nonlinear: bool,
    t: Vec<f64>,
    /// per net name / per source path: the DC value, then the samples
    nets: Vec<(String, Vec<f64>)>,
    sources: Vec<(String, Vec<f64>)>,
}

fn see(text: &str, f: &Flat) -> Result<Seen, String> {
    let (ckt, cfg) = read_deck(text)?;
    let map = compare(f, &ckt)?;
    let br = branches(f, &map, &ckt)?;
    let nn = map.len();
    let dc = crate::net::run_dc(&ckt, &cfg);
    if !dc.accepted(&cfg) {
        return Err("no operating point".to_string());
    }
    let mut cols: Vec<Vec<f64>> = dc.x.iter().map(|v| vec![*v]).collect();
    let mut t = vec![];
    if matches!(cfg.kind, Some(tiny_spice::analysis::Kind::Transient)) {
        let r = run_tran(&ckt, &cfg)?;
        if r.end != cfg.TSTOP {
            return Err(format!("the analysis gave up at {:e}", r.end));
        }
        for (tm, row) in &r.wave.rows {
            t.push(*tm);
            if row.len() != cols.len() {
                return Err(format!("row of {} values for {} unknowns", row.len(), cols.len()));
            }
            for (c, v) in cols.iter_mut().zip(row) {
                c.push(*v);
            }
        }
    }
    let mut nets: Vec<(usize, usize)> = map.iter().map(|(k, id)| (*k, *id)).collect();
    nets.sort_unstable();
    let srcs: Vec<&Prim> = f.prims.iter().filter(|p| "VvwE".contains(p.kind)).collect();
    Ok(Seen {
        nonlinear: f.prims.iter().any(|p| p.kind == 'D'),
        t,
        nets: nets.iter().map(|(k, id)| (f.names[*k][0].clone(), cols[*id].clone())).collect(),
        sources: srcs.iter().zip(&br).map(|(p, b)| (p.path.clone(), cols[nn + b].clone())).collect(),
    })
}

fn same(what: &str, a: &[(String, Vec<f64>)], b: &[(String, Vec<f64>)], by_name: bool, tol: f64, floor: f64) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} {} instead of {}", b.len(), what, a.len()));
    }
    let scale = a.iter().flat_map(|x| x.1.iter()).fold(floor, |m, v| m.max(v.abs()));
    for (k, (name, va)) in a.iter().enumerate() {
        let vb = if by_name {
            b.iter().find(|x| x.0 == *name).map(|x| &x.1)
        } else {
            b.get(k).map(|x| &x.1)
        };
        let Some(vb) = vb else { return Err(format!("no {} {}", what, name)) };
        if va.len() != vb.len() {
            return Err(format!("{} values instead of {}", vb.len(), va.len()));
        }
        for i in 0..va.len() {
            if !((va[i] - vb[i]).abs() <= tol * scale) {
                return Err(format!("{} {}: value {} is {:e}, and {:e} in the deck as first written", what, name, i, vb[i], va[i]));
            }
        }
    }
    Ok(())
}

fn agree(a: &Seen, b: &Seen, by_name: bool) -> Result<(), String> {
    let tol = if a.nonlinear { 1e-3 } else { 1e-8 };
    if a.t.len() != b.t.len() || a.t.iter().zip(&b.t).any(|(x, y)| (x - y).abs() > 1e-9 * x.abs()) {
        return Err(format!("{} timepoints, not the {} of the deck as first written", b.t.len(), a.t.len()));
    }
    same("net", &a.nets, &b.nets, by_name, tol, 1e-3)?;
    same("current through", &a.sources, &b.sources, by_name, tol, 1e-6)
}

/// A deck cut into blocks that can be in any order
fn blocks(d: &Deck) -> Vec<String> {
    let mut v: Vec<String> = d.top.iter().map(|i| i.text() + "\n").collect();
    v.extend(d.subs.iter().map(|s| s.text()));
    if !d.control.is_empty() {
        v.push(format!(".control\n{}\n.endc\n", d.control));
    }
    v
}

fn deck_of(top: Vec<Item>, subs: Vec<Sub>, control: &str) -> Deck {
    Deck { top, subs, control: s(control), subs_first: false }
}

fn sin(o: f64, a: f64, f: f64) -> Val {
    Val::Sin([o, a, f])
}
fn par(p: &str) -> Val {
    Val::Param(s(p))
}
fn pwl() -> Val {
    Val::Pwl(PwlSpec { pat: vec![(0.0, 0.0), (1.0, 2.0), (3.0, -1.0)], td: 0.5, rep: true })
}

/// Small decks between them using every element and every feature
fn decks() -> Vec<(&'static str, Deck)> {
    let tran = "tran 0.5 6";
    vec![
        ("divider, operating point", deck_of(vec![el("V1", "a 0", n(2.0)), el("R1", "a b", n(1.0)), el("R2", "b c", n(2.0)), el("R3", "c 0", n(4.0)), el("I1", "0 b", n(0.25))], vec![], "op")),
        ("sources in series and parallel branches", deck_of(vec![el("V1", "a b", n(1.0)), el("V2", "b 0", sin(0.5, 1.0, 0.1)), el("V3", "c a", pwl()), el("R1", "c 0", n(2.0)), el("C1", "c b", n(0.5))], vec![], tran)),
        ("controlled sources", deck_of(vec![el("V1", "a 0", sin(1.0, 0.5, 0.13)), el("E1", "b 0 a c", n(2.0)), el("R1", "b c", n(3.0)), el("G1", "c 0 b a", n(0.1)), el("R2", "c 0", n(1.0)), el("C1", "c a", n(0.7))], vec![], tran)),
        ("rectifier", deck_of(vec![el("V1", "a 0", sin(0.0, 3.0, 0.11)), el("R1", "a b", n(1.0)), el("D1", "b c", Val::None), el("R2", "c 0", n(10.0)), el("C1", "c 0", n(0.5))], vec![], tran)),
        ("current driven, option", deck_of(vec![el("I1", "0 a", sin(0.1, 0.2, 0.2)), el("R1", "a 0", n(2.0)), el("C1", "a b", n(1.0)), el("R2", "b 0", n(1.0)), el("D1", "0 b", Val::None)], vec![], "option RMAX = 0.5\ntran 0.5 6")),
        (
            "two instances of one subcircuit",
            deck_of(
                vec![el("V1", "a 0", n(3.0)), x("X1", "a b", "s"), x("X2", "b 0", "s"), el("C1", "b 0", n(1.0))],
                vec![sub("s", "p q", vec![el("R1", "p m", n(1.0)), el("R2", "m q", n(2.0)), el("I1", "q m", n(0.1))])],
                tran,
            ),
        ),
        (
            "parameters, two definitions",
            deck_of(
                vec![el("V1", "a 0", sin(1.0, 2.0, 0.1)), xp("X1", "a b", "s", &[("r", n(2.0))]), xp("X2", "b", "t", &[("c", n(0.5))])],
                vec![
                    subp("s", "p q", &[("r", n(1.0)), ("k", n(0.5))], vec![el("R1", "p m", par("r")), el("R2", "m q", n(1.0)), el("G1", "m 0 p q", par("k"))]),
                    subp("t", "p", &[("r", n(4.0)), ("c", n(1.0))], vec![el("R1", "p 0", par("r")), el("C1", "p 0", par("c")), el("V1", "m 0", n(1.0)), el("R2", "m p", par("r"))]),
                ],
                tran,
            ),
        ),
        (
            "nested, parameters handed down",
            deck_of(
                vec![el("V1", "a 0", n(2.0)), xp("X1", "a", "t", &[("r", n(3.0))]), x("X2", "a", "t"), el("C1", "a 0", n(1.0))],
                vec![
                    subp("t", "p", &[("r", n(1.0))], vec![xp("X1", "p m", "s", &[("r", par("r"))]), x("X2", "m 0", "s"), el("E1", "z 0 m p", n(0.5)), el("R1", "z m", par("r"))]),
                    subp("s", "p q", &[("r", n(5.0))], vec![el("R1", "p q", par("r")), el("D1", "p q", Val::None)]),
                ],
                "tran 0.5 3",
            ),
        ),
    ]
}

type Names = HashMap<String, String>;

/// Consistently rename
struct Renames {
    /// by scope: "" is the top level, else the subcircuit's original name
    nodes: HashMap<String, Names>,
    els: HashMap<String, Names>,
    params: HashMap<String, Names>,
    subs: Names,
}

fn get(m: &HashMap<String, Names>, scope: &str, n: &str) -> String {
    m.get(scope).and_then(|x| x.get(n)).cloned().unwrap_or_else(|| n.to_string())
}

impl Renames {
    fn none() -> Renames {
        Renames { nodes: HashMap::new(), els: HashMap::new(), params: HashMap::new(), subs: HashMap::new() }
    }
    fn val(&self, scope: &str, v: &Val) -> Val {
        match v {
            Val::Param(p) => Val::Param(get(&self.params, scope, p)),
            v => v.clone(),
        }
    }
    fn items(&self, scope: &str, items: &[Item]) -> Vec<Item> {
        items
            .iter()
            .map(|i| match i {
                Item::El { name, nodes, val } => Item::El {
                    name: get(&self.els, scope, name),
                    nodes: nodes.iter().map(|x| get(&self.nodes, scope, x)).collect(),
                    val: self.val(scope, val),
                },
                Item::X { name, conns, sub, over } => Item::X {
                    name: get(&self.els, scope, name),
                    conns: conns.iter().map(|x| get(&self.nodes, scope, x)).collect(),
                    sub: self.subs.get(sub).cloned().unwrap_or_else(|| sub.clone()),
                    over: over.iter().map(|(k, v)| (get(&self.params, sub, k), self.val(scope, v))).collect(),
                },
            })
            .collect()
    }
    fn apply(&self, d: &Deck) -> Deck {
        Deck {
            top: self.items("", &d.top),
            subs: d
                .subs
                .iter()
                .map(|u| Sub {
                    name: self.subs.get(&u.name).cloned().unwrap_or_else(|| u.name.clone()),
                    ports: u.ports.iter().map(|p| get(&self.nodes, &u.name, p)).collect(),
                    params: u.params.iter().map(|(k, v)| (get(&self.params, &u.name, k), self.val("", v))).collect(),
                    items: self.items(&u.name, &u.items),
                })
                .collect(),
            control: d.control.clone(),
            subs_first: d.subs_first,
        }
    }
}

fn uniq(mut v: Vec<String>) -> Vec<String> {
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

fn scope_names(items: &[Item], ports: &[String]) -> (Vec<String>, Vec<String>) {
    let mut nodes = ports.to_vec();
    let mut els = vec![];
    for i in items {
        match i {
            Item::El { name, nodes: ns, .. } => {
                els.push(name.clone());
                nodes.extend(ns.iter().cloned());
            }
            Item::X { name, conns, .. } => {
                els.push(name.clone());
                nodes.extend(conns.iter().cloned());
            }
        }
    }
    (uniq(nodes.into_iter().filter(|n| !is_gnd(n)).collect()), uniq(els))
}

/// All injective maps of `from` into `to`
fn injections(from: &[String], to: &[&str], f: &mut dyn FnMut(&Names)) {
    fn go(from: &[String], to: &[&str], used: &mut Vec<bool>, m: &mut Names, f: &mut dyn FnMut(&Names)) {
        if from.is_empty() {
            f(m);
            return;
        }
        for k in 0..to.len() {
            if used[k] {
                continue;
            }
            used[k] = true;
            m.insert(from[0].clone(), to[k].to_string());
            go(&from[1..], to, used, m, f);
            used[k] = false;
        }
        m.remove(&from[0]);
    }
    go(from, to, &mut vec![false; to.len()], &mut HashMap::new(), f)
}

fn permutations(n: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(n: usize, p: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if p.len() == n {
            f(p);
            return;
        }
        for k in 0..n {
            if !p.contains(&k) {
                p.push(k);
                go(n, p, f);
                p.pop();
            }
        }
    }
    go(n, &mut vec![], f)
}

/// Look-alikes of ground, of each other, of hierarchical names and of internal names
const NODES: &[&str] = &["1", "01", "00", "n1", "N1", "n_1", "Gnd", "gnd1", "GND_", "_", "p", "q", "m", "a", "X1", "1k", "R1", "SIN", "10", "param0", "X1_m", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"];
/// words that mean something elsewhere in a deck
const WORDS: &[&str] = &["SIN", "PWL", "PWLx", "SINK", "sin", "pwl", "r", "td", "op", "tran", "option", "save", "waves", "subckt", "ends", "control", "endc", "lib", "endl", "end", "RELTOL", "1meg", "5V", "1e3", "device", "param", "R1", "D1", "V1", "X1", "E1"];
const TAILS: &[&str] = &["1", "11", "", "a", "A", "_", "1_1", "X1", "10", "01", "V1", "gnd", "0"];
const SUBS: &[&str] = &["s", "S", "t", "R", "R1", "X1", "V", "0", "gnd", "1k", "d.spi", "s.s", "device", "ss", "p", "op", "sub-1"];
const PARAMS: &[&str] = &["r", "R", "c", "k", "rr", "r1", "param0", "p", "m", "X1", "gnd", "value", "td", "rload", "C0", "kK9"];

/// Cards that can be put together as one likes: every net has a resistance to ground
fn cards() -> Vec<Item> {
    vec![
        el("V1", "a 0", n(2.0)),
        el("V2", "b2 b", sin(0.5, 1.0, 0.1)),
        el("V3", "0 c3", pwl()),
        el("I1", "a b", sin(0.1, 0.2, 0.3)),
        el("E1", "e b a c", n(0.5)),
        el("E2", "0 f e a", n(-0.7)),
        el("G1", "c a b 0", n(0.2)),
        el("C1", "a c", n(0.5)),
        el("D1", "b c", Val::None),
        x("X1", "a b", "sv"),
        x("X2", "c a", "se"),
        xp("X3", "b c", "sx", &[("k", n(3.0))]),
    ]
}

fn cards_deck(items: &[Item], sub_order: usize) -> Deck {
    let mut subs = vec![
        sub("sv", "p q", vec![el("V1", "p m", n(0.5)), el("R1", "m q", n(2.0)), el("V2", "k 0", pwl()), el("R2", "k m", n(3.0))]),
        sub("se", "p q", vec![el("R1", "p m", n(1.0)), el("E1", "m k p q", n(0.37)), el("R2", "k q", n(3.3)), el("I1", "k 0", n(0.1))]),
        subp("sx", "p q", &[("k", n(1.0))], vec![x("X1", "q m", "sv"), el("E1", "w 0 m p", par("k")), x("X2", "p m", "se"), el("R1", "w m", par("k"))]),
    ];
    subs.rotate_left(sub_order % 3);
    let mut top = items.to_vec();
    for (k, nd) in ["a", "b", "c", "b2", "c3", "e", "f"].iter().enumerate() {
        top.push(el(&format!("R{}", k), &format!("{} 0", nd), n(1.0 + k as f64)));
    }
    Deck { top, subs, control: s("tran 0.5 2"), subs_first: sub_order >= 3 }
}

fn run_cards(cx: &mut Cx) {
    let al = cards();
    for len in 2..=cx.deep(4, 5, 6) {
        cx.family(&format!("every choice of {} cards out of {}, in every order", len, al.len()));
        crate::net::multisets(len, al.len(), &mut |ix| {
            // (in the largest ones with a diode, rounding may decide how many iterations a step takes)
            if ix.windows(2).any(|w| w[0] == w[1]) || len > 5 && ix.contains(&8) {
                return;
            }
            let pick = |p: &[usize]| -> Vec<Item> { p.iter().map(|k| al[ix[*k]].clone()).collect() };
            let first = cards_deck(&pick(&(0..len).collect::<Vec<_>>()), 0);
            let mut cached: Option<Result<Seen, String>> = None;
            permutations(len, &mut |p| {
                let order = p.iter().fold(0usize, |a, b| a * 7 + b) % 6;
                let d = cards_deck(&pick(p), order);
                cx.case(&|| d.text(), &mut |c| {
                    let b = cached.get_or_insert_with(|| flatten(&first).and_then(|f| see(&first.text(), &f)));
                    let b = match b {
                        // what is active and has a diode need not have a solution
                        Err(e) if ix.contains(&8) && ["no operating point", "the analysis gave up"].iter().any(|x| e.starts_with(x)) => {
                            c.skipped = true;
                            return Ok(());
                        }
                        b => b.as_ref().map_err(|e| e.clone())?,
                    };
                    let v = see(&d.text(), &flatten(&d)?)?;
                    c.validated();
                    c.steps(v.t.len());
                    c.saw(&(ix.to_vec(), p.to_vec()));
                    agree(b, &v, true)
                });
            });
        });
    }
}

/// The decks that come with the simulator: two cards in each other's place, one thing with another name
fn run_shipped(cx: &mut Cx) {
    for sh in shipped::all() {
        if sh.name == "test_reader.spi" {
            continue; // has nodes without a path to ground
        }
        // with diodes rounding may decide about a step
        let d = if sh.has("D") { Deck { control: s("op"), ..sh.deck.clone() } } else { sh.short(20.0) };
        let mut cached: Option<Result<Seen, String>> = None;
        let mut check = |cx: &mut Cx, e: &Deck, by_name: bool| {
            cx.case(&|| format!("{}\n{}", sh.name, e.text()), &mut |c| {
                let b = cached.get_or_insert_with(|| flatten(&d).and_then(|f| see(&d.text(), &f)));
                let b = b.as_ref().map_err(|e| e.clone())?;
                let v = see(&e.text(), &flatten(e)?)?;
                c.validated();
                c.steps(v.t.len());
                c.saw(&fnv(&e.text()));
                agree(b, &v, by_name)
            });
        };
        cx.family("the decks that come with the simulator, two cards in each other's place");
        for e in shipped::swapped(&d) {
            check(cx, &e, true);
        }
        cx.family("the decks that come with the simulator, one thing with another name");
        let mut scopes: Vec<(String, Vec<String>, Vec<String>, Vec<String>)> = vec![];
        for k in 0..shipped::scopes(&d) {
            let (name, ports, params) = match k.checked_sub(1).map(|k| &d.subs[k]) {
                None => (String::new(), vec![], vec![]),
                Some(u) => (u.name.clone(), u.ports.clone(), u.params.iter().map(|p| p.0.clone()).collect()),
            };
            let (nodes, els) = scope_names(shipped::items(&d, k), &ports);
            scopes.push((name, nodes, els, params));
        }
        // all the names there are, and some others
        let mut pool: Vec<String> = scopes.iter().flat_map(|x| [x.1.clone(), x.2.clone(), x.3.clone(), vec![x.0.clone()]].concat()).filter(|x| !x.is_empty()).collect();
        pool.extend(["0x", "1", "gnd1", "Z"].map(s));
        pool.extend(WORDS.iter().copied().map(s));
        let pool = uniq(pool);
        let one = |from: &str, to: &str| -> Names { [(s(from), s(to))].into_iter().collect() };
        for (scope, nodes, els, params) in &scopes {
            for to in &pool {
                for from in nodes.iter().filter(|_| !nodes.contains(to) && !is_gnd(to)) {
                    let mut r = Renames::none();
                    r.nodes.insert(scope.clone(), one(from, to));
                    check(cx, &r.apply(&d), false);
                }
                for from in els {
                    let to = format!("{}{}", &from[..1], to);
                    if els.contains(&to) {
                        continue;
                    }
                    let mut r = Renames::none();
                    r.els.insert(scope.clone(), one(from, &to));
                    check(cx, &r.apply(&d), false);
                }
                let word = to.chars().all(|c| c.is_ascii_alphanumeric()) && to.starts_with(|c: char| c.is_ascii_alphabetic());
                for from in params.iter().filter(|_| word && !params.contains(to)) {
                    let mut r = Renames::none();
                    r.params.insert(scope.clone(), one(from, to));
                    check(cx, &r.apply(&d), false);
                }
                if !scope.is_empty() && !d.subs.iter().any(|u| u.name == *to) {
                    let mut r = Renames::none();
                    r.subs = one(scope, to);
                    check(cx, &r.apply(&d), false);
                }
            }
        }
    }
}

fn run(cx: &mut Cx) {
    run_cards(cx);
    run_shipped(cx);
    let ds = decks();
    for (what, d) in &ds {
        // the deck as first written
        let base = |c: &mut Case| -> Result<Seen, String> {
            c.step();
            see(&d.text(), &flatten(d)?)
        };
        let mut cached: Option<Result<Seen, String>> = None;
        let bl = blocks(d);
        let n = bl.len();

        cx.family(&format!("{}: permutations of its blocks", what));
        permutations(n, &mut |p| {
            let text: String = std::iter::once("title\n").chain(p.iter().map(|k| bl[*k].as_str())).collect();
            cx.case(&|| text.clone(), &mut |c| {
                let b = cached.get_or_insert_with(|| base(c));
                let b = b.as_ref().map_err(|e| e.clone())?;
                let v = see(&text, &flatten(d)?)?;
                c.validated();
                c.step();
                c.saw(&(d.text().len(), p[0], p[n - 1]));
                agree(b, &v, true)
            });
        });

        for (k, u) in d.subs.iter().enumerate() {
            cx.family(&format!("{}: permutations inside {}", what, u.name));
            permutations(u.items.len(), &mut |p| {
                for first in [false, true] {
                    let mut e = d.clone();
                    e.subs[k].items = p.iter().map(|j| u.items[*j].clone()).collect();
                    e.subs_first = first;
                    if first {
                        e.top.reverse();
                        e.subs.reverse();
                    }
                    cx.case(&|| e.text(), &mut |c| {
                        let b = cached.get_or_insert_with(|| base(c));
                        let b = b.as_ref().map_err(|e| e.clone())?;
                        let v = see(&e.text(), &flatten(&e)?)?;
                        c.validated();
                        c.step();
                        c.saw(&(e.text().len(), p[0], first));
                        agree(b, &v, true)
                    });
                }
            });
        }

        let mut check = |cx: &mut Cx, r: &Renames| {
            let e = r.apply(d);
            cx.case(&|| e.text(), &mut |c| {
                let b = cached.get_or_insert_with(|| base(c));
                let b = b.as_ref().map_err(|e| e.clone())?;
                let v = see(&e.text(), &flatten(&e)?)?;
                c.validated();
                c.step();
                c.saw(&fnv(&e.text()));
                agree(b, &v, false)
            });
        };

        let mut scopes: Vec<(String, Vec<Item>, Vec<String>)> = vec![(String::new(), d.top.clone(), vec![])];
        scopes.extend(d.subs.iter().map(|u| (u.name.clone(), u.items.clone(), u.ports.clone())));
        for (scope, items, ports) in &scopes {
            let (nodes, els) = scope_names(items, ports);
            let at = if scope.is_empty() { "the top level".to_string() } else { scope.clone() };

            cx.family(&format!("{}: renaming the nodes of {}", what, at));
            let mut al: Vec<&str> = NODES.to_vec();
            if !cx.thorough() {
                al.truncate([0, 22, 22, 22, 10][nodes.len().min(4)]);
            }
            injections(&nodes, &al, &mut |m| {
                let mut r = Renames::none();
                r.nodes.insert(scope.clone(), m.clone());
                check(cx, &r);
            });

            cx.family(&format!("{}: a node or an element of {} with a word that means something else", what, at));
            for w in WORDS {
                for from in nodes.iter().filter(|_| !nodes.contains(&w.to_string())) {
                    let mut r = Renames::none();
                    r.nodes.insert(scope.clone(), [(from.clone(), w.to_string())].into_iter().collect());
                    check(cx, &r);
                }
                for from in &els {
                    let to = format!("{}{}", &from[..1], w);
                    if !els.contains(&to) {
                        let mut r = Renames::none();
                        r.els.insert(scope.clone(), [(from.clone(), to)].into_iter().collect());
                        check(cx, &r);
                    }
                }
            }

            cx.family(&format!("{}: renaming the elements of {}", what, at));
            // elements keep their first letter; in pairs, as all together would be too many
            for i in 0..els.len() {
                for j in i..els.len() {
                    for a in TAILS {
                        for b in TAILS {
                            let na = format!("{}{}", &els[i][..1], a);
                            let nb = format!("{}{}", &els[j][..1], b);
                            let mut m = HashMap::new();
                            m.insert(els[i].clone(), na.clone());
                            if i != j {
                                m.insert(els[j].clone(), nb.clone());
                            } else if a != b {
                                continue;
                            }
                            // instances of subcircuits have names of their own, and what has an
                            // equals sign in it is a parameter
                            let all: Vec<String> = els.iter().map(|e| m.get(e).unwrap_or(e).clone()).collect();
                            if uniq(all.clone()).len() != all.len() || all.iter().any(|x| x.starts_with('X') && x.contains(['=', '{', '/'])) {
                                continue;
                            }
                            let mut r = Renames::none();
                            r.els.insert(scope.clone(), m);
                            check(cx, &r);
                        }
                    }
                }
            }
        }

        if !d.subs.is_empty() {
            cx.family(&format!("{}: renaming the subcircuits", what));
            let subs: Vec<String> = d.subs.iter().map(|u| u.name.clone()).collect();
            injections(&subs, SUBS, &mut |m| {
                let mut r = Renames::none();
                r.subs = m.clone();
                check(cx, &r);
            });
        }
        cx.family(&format!("{}: a subcircuit or a parameter with a word that means something else", what));
        for w in WORDS {
            for u in &d.subs {
                let one = |from: &str| -> Names { [(from.to_string(), w.to_string())].into_iter().collect() };
                if !d.subs.iter().any(|x| x.name == *w) {
                    let mut r = Renames::none();
                    r.subs = one(&u.name);
                    check(cx, &r);
                }
                let word = w.starts_with(|c: char| c.is_ascii_alphabetic());
                for p in u.params.iter().filter(|_| word && !u.params.iter().any(|x| x.0 == *w)) {
                    let mut r = Renames::none();
                    r.params.insert(u.name.clone(), one(&p.0));
                    check(cx, &r);
                }
            }
        }
        for u in &d.subs {
            if u.params.is_empty() {
                continue;
            }
            cx.family(&format!("{}: renaming the parameters of {}", what, u.name));
            let ps: Vec<String> = u.params.iter().map(|p| p.0.clone()).collect();
            injections(&ps, PARAMS, &mut |m| {
                let mut r = Renames::none();
                r.params.insert(u.name.clone(), m.clone());
                check(cx, &r);
            });
        }

        // everything at once to and from the same small alphabet, so that names of one kind
        // equal those of another, and those at other levels
        cx.family(&format!("{}: the same names for everything", what));
        let al: &[&str] = &["a", "b", "X1", "r", "p", "s"];
        let rot = al.len();
        for kn in 0..rot {
            for ke in 0..rot {
                for ks in 0..rot {
                    for kp in 0..rot {
                        let mut r = Renames::none();
                        for (si, (scope, items, ports)) in scopes.iter().enumerate() {
                            let (nodes, els) = scope_names(items, ports);
                            let names = |v: &[String], k: usize, keep: bool| -> Names {
                                v.iter().enumerate().map(|(i, x)| (x.clone(), format!("{}{}{}", if keep { &x[..1] } else { "" }, al[(i + k) % rot], if i + 1 > rot { "z" } else { "" }))).collect()
                            };
                            r.nodes.insert(scope.clone(), names(&nodes, kn + si * (ks % 2), false));
                            r.els.insert(scope.clone(), names(&els, ke, true));
                            if si > 0 {
                                let ps: Vec<String> = d.subs[si - 1].params.iter().map(|p| p.0.clone()).collect();
                                r.params.insert(scope.clone(), names(&ps, kp, false));
                            }
                        }
                        for (i, u) in d.subs.iter().enumerate() {
                            r.subs.insert(u.name.clone(), al[(i + ks) % rot].to_string());
                        }
                        check(cx, &r);
                    }
                }
            }
        }
    }
}
