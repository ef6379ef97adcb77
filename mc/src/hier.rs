//! Reference model of hierarchical decks: an AST, the text it stands for, and the flat circuit it
//! must expand to. The flattener works on net sets (union by reference), not on names.

use crate::net::{num, El, PwlSpec};
use std::collections::{BTreeMap, HashMap};
use tiny_spice::circuit::{Circuit, Element};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Num(f64),
    /// the text as written, and what it means
    Lit(String, f64),
    Param(String),
    Sin([f64; 3]),
    Pwl(PwlSpec),
    None,
}

#[derive(Clone, Debug)]
pub enum Item {
    El { name: String, nodes: Vec<String>, val: Val },
    X { name: String, conns: Vec<String>, sub: String, over: Vec<(String, Val)> },
}

#[derive(Clone, Debug, Default)]
pub struct Sub {
    pub name: String,
    pub ports: Vec<String>,
    pub params: Vec<(String, Val)>,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug, Default)]
pub struct Deck {
    pub top: Vec<Item>,
    pub subs: Vec<Sub>,
    pub control: String,
    /// definitions before the top-level cards
    pub subs_first: bool,
}

pub fn s(x: &str) -> String {
    x.to_string()
}
pub fn el(name: &str, nodes: &str, val: Val) -> Item {
    Item::El { name: s(name), nodes: nodes.split_whitespace().map(s).collect(), val }
}
pub fn n(v: f64) -> Val {
    Val::Num(v)
}
pub fn x(name: &str, conns: &str, sub: &str) -> Item {
    Item::X { name: s(name), conns: conns.split_whitespace().map(s).collect(), sub: s(sub), over: vec![] }
}
pub fn xp(name: &str, conns: &str, sub: &str, over: &[(&str, Val)]) -> Item {
    Item::X {
        name: s(name),
        conns: conns.split_whitespace().map(s).collect(),
        sub: s(sub),
        over: over.iter().map(|(a, b)| (s(a), b.clone())).collect(),
    }
}
pub fn sub(name: &str, ports: &str, items: Vec<Item>) -> Sub {
    Sub { name: s(name), ports: ports.split_whitespace().map(s).collect(), params: vec![], items }
}
pub fn subp(name: &str, ports: &str, params: &[(&str, Val)], items: Vec<Item>) -> Sub {
    Sub { params: params.iter().map(|(a, b)| (s(a), b.clone())).collect(), ..sub(name, ports, items) }
}

impl Val {
    pub fn text(&self) -> String {
        match self {
            Val::Num(v) => num(*v),
            Val::Lit(t, _) => t.clone(),
            Val::Param(p) => format!("{{{}}}", p),
            Val::Sin(p) => format!("SIN({} {} {})", num(p[0]), num(p[1]), num(p[2])),
            Val::Pwl(p) => {
                let pat: Vec<String> = p.pat.iter().map(|(t, v)| format!("{}, {}", num(*t), num(*v))).collect();
                let mut l = format!("PWL({})", pat.join(", "));
                if p.td != 0.0 {
                    l += &format!(" td={}", num(p.td));
                }
                if p.rep {
                    l += " r=0";
                }
                l
            }
            Val::None => String::new(),
        }
    }
}

impl Item {
    pub fn text(&self) -> String {
        match self {
            Item::El { name, nodes, val } => format!("{} {} {}", name, nodes.join(" "), val.text()),
            Item::X { name, conns, sub, over } => {
                let mut t = format!("{} {} {}", name, conns.join(" "), sub);
                for (k, v) in over {
                    t += &format!(" {}={}", k, v.text());
                }
                t
            }
        }
    }
}

impl Sub {
    pub fn text(&self) -> String {
        let mut t = format!(".subckt {} {}", self.name, self.ports.join(" "));
        for (k, v) in &self.params {
            t += &format!(" {}={}", k, v.text());
        }
        t.push('\n');
        for i in &self.items {
            t += &i.text();
            t.push('\n');
        }
        t + ".ends\n"
    }
}

impl Deck {
    pub fn text(&self) -> String {
        let subs: String = self.subs.iter().map(|s| s.text()).collect();
        let mut t = s("title\n");
        if self.subs_first {
            t += &subs;
        }
        for i in &self.top {
            t += &i.text();
            t.push('\n');
        }
        if !self.subs_first {
            t += &subs;
        }
        if !self.control.is_empty() {
            t += &format!(".control\n{}\n.endc\n", self.control);
        }
        t
    }
}

/// One primitive of the flat circuit
#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub struct Prim {
    pub kind: char,
    pub path: String,
    pub nets: Vec<usize>,
    pub vals: Vec<f64>,
}

#[derive(Clone, Debug, Default)]
pub struct Flat {
    pub prims: Vec<Prim>,
    /// names of each net; net 0 is ground. The first name is the one from the highest level
    pub names: Vec<Vec<String>>,
    /// every parameter, by its full name
    pub params: BTreeMap<String, f64>,
}

pub fn is_gnd(name: &str) -> bool {
    name == "0" || name == "gnd" || name == "GND"
}

fn vals_of(v: &Val, scope: &HashMap<String, f64>) -> Result<Vec<f64>, String> {
    Ok(match v {
        Val::Num(v) | Val::Lit(_, v) => vec![*v],
        Val::Param(p) => vec![*scope.get(p).ok_or(format!("parameter {} is not defined", p))?],
        Val::Sin(p) => p.to_vec(),
        Val::Pwl(p) => {
            let mut o = vec![p.td, if p.rep { 1.0 } else { 0.0 }];
            for (a, b) in &p.pat {
                o.push(*a);
                o.push(*b);
            }
            o
        }
        Val::None => vec![],
    })
}

fn kind_of(name: &str, v: &Val) -> char {
    let c = name.chars().next().unwrap_or('?');
    match (c, v) {
        ('V', Val::Sin(_)) => 'v',
        ('I', Val::Sin(_)) => 'i',
        ('V', Val::Pwl(_)) => 'w',
        (c, _) => c,
    }
}

/// Flatten a deck
pub fn flatten(d: &Deck) -> Result<Flat, String> {
    let mut f = Flat { names: vec![vec![s("gnd")]], ..Flat::default() };
    let scope = HashMap::new();
    level(d, &d.top, "", &mut HashMap::new(), &scope, &mut f)?;
    Ok(f)
}

fn level(d: &Deck, items: &[Item], path: &str, nets: &mut HashMap<String, usize>, scope: &HashMap<String, f64>, f: &mut Flat) -> Result<(), String> {
    let mut net = |name: &str, f: &mut Flat| -> usize {
        if is_gnd(name) {
            return 0;
        }
        if let Some(k) = nets.get(name) {
            return *k;
        }
        let k = f.names.len();
        f.names.push(vec![format!("{}{}", path, name)]);
        nets.insert(name.to_string(), k);
        k
    };
    for it in items {
        match it {
            Item::El { name, nodes, val } => {
                let ns: Vec<usize> = nodes.iter().map(|x| net(x, f)).collect();
                f.prims.push(Prim { kind: kind_of(name, val), path: format!("{}{}", path, name), nets: ns, vals: vals_of(val, scope)? });
            }
            Item::X { name, conns, sub, over } => {
                let def = d.subs.iter().find(|x| x.name == *sub).ok_or(format!("no subcircuit {}", sub))?;
                if def.ports.len() != conns.len() {
                    return Err(s("ports"));
                }
                let mut inner = HashMap::new();
                for (p, c) in def.ports.iter().zip(conns) {
                    let k = net(c, f);
                    inner.insert(p.clone(), k);
                    f.names[k].push(format!("{}{}.{}", path, name, p));
                }
                let mut ps = HashMap::new();
                for (k, v) in &def.params {
                    let v = match over.iter().find(|o| o.0 == *k) {
                        Some(o) => &o.1,
                        None => v,
                    };
                    let v = vals_of(v, scope)?[0];
                    ps.insert(k.clone(), v);
                    f.params.insert(format!("{}{}.{}", path, name, k), v);
                }
                level(d, &def.items, &format!("{}{}.", path, name), &mut inner, &ps, f)?;
            }
        }
    }
    Ok(())
}

/// Rewrite a flat circuit with just the nets that have something on them, as plain elements
pub fn to_els(f: &Flat) -> Result<(Vec<El>, Vec<usize>), String> {
    let mut used: Vec<usize> = f.prims.iter().flat_map(|p| p.nets.clone()).chain([0]).collect();
    used.sort_unstable();
    used.dedup();
    let mut els = vec![];
    for p in &f.prims {
        let m: Vec<usize> = p.nets.iter().map(|k| used.binary_search(k).expect("used")).collect();
        let v = p.vals.first().copied().unwrap_or(0.0);
        els.push(match p.kind {
            'R' => El::R(m[0], m[1], v),
            'C' => El::C(m[0], m[1], v),
            'D' => El::D(m[0], m[1], 1e-9),
            'I' => El::I(m[0], m[1], v),
            'V' => El::V(m[0], m[1], v),
            'i' => El::Is(m[0], m[1], [p.vals[0], p.vals[1], p.vals[2]]),
            'v' => El::Vs(m[0], m[1], [p.vals[0], p.vals[1], p.vals[2]]),
            'w' => El::Vp(m[0], m[1], PwlSpec { pat: p.vals[2..].chunks(2).map(|c| (c[0], c[1])).collect(), td: p.vals[0], rep: p.vals[1] != 0.0 }),
            'E' => El::E(m[0], m[1], m[2], m[3], v),
            'G' => El::G(m[0], m[1], m[2], m[3], v),
            k => return Err(format!("kind {}", k)),
        });
    }
    Ok((els, used))
}

fn terminals(e: &Element) -> Vec<usize> {
    match e {
        Element::R(r) => vec![r.a, r.b],
        Element::C(r) => vec![r.a, r.b],
        Element::D(r) => vec![r.p, r.n],
        Element::I(r) => vec![r.p, r.n],
        Element::V(r) => vec![r.p, r.n],
        Element::Isin(r) => vec![r.p, r.n],
        Element::Vsin(r) => vec![r.p, r.n],
        Element::Vpwl(r) => vec![r.p, r.n],
        Element::Vcvs(r) => vec![r.p, r.n, r.cp, r.cn],
        Element::Vccs(r) => vec![r.p, r.n, r.cp, r.cn],
    }
}

/// What the code under test made of it
pub fn observe(ckt: &Circuit) -> Result<Vec<(Prim, Option<usize>)>, String> {
    let mut o = vec![];
    for e in &ckt.elements {
        let (kind, path, vals, idx) = match e {
            Element::R(r) => ('R', r.ident.clone(), vec![r.value], None),
            Element::C(r) => ('C', r.ident.clone(), vec![r.value], None),
            Element::D(r) => {
                if r.i_sat != 1e-9 || r.tdegc != 27.0 {
                    return Err(format!("diode {} has Is={} T={}", r.ident, r.i_sat, r.tdegc));
                }
                ('D', r.ident.clone(), vec![], None)
            }
            Element::I(r) => ('I', String::new(), vec![r.value], None),
            Element::V(r) => ('V', String::new(), vec![r.value], Some(r.idx)),
            Element::Isin(r) => ('i', String::new(), vec![r.vo, r.va, r.freq], None),
            Element::Vsin(r) => ('v', String::new(), vec![r.vo, r.va, r.freq], Some(r.idx)),
            Element::Vpwl(r) => {
                let mut v = vec![r.t_delay, if r.repeat >= 0.0 { 1.0 } else { 0.0 }];
                for (a, b) in &r.pat {
                    v.push(*a);
                    v.push(*b);
                }
                ('w', String::new(), v, Some(r.idx))
            }
            Element::Vcvs(r) => ('E', r.ident.clone(), vec![r.k], Some(r.idx)),
            Element::Vccs(r) => ('G', r.ident.clone(), vec![r.k], None),
        };
        o.push((Prim { kind, path, nets: terminals(e), vals }, idx));
    }
    Ok(o)
}

pub fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
}

/// Compare an expanded circuit with the reference. Returns, for every net of the reference that
/// has something on it, the node it became.
pub fn compare(f: &Flat, ckt: &Circuit) -> Result<HashMap<usize, usize>, String> {
    let mut used: Vec<usize> = f.prims.iter().flat_map(|p| p.nets.clone()).chain([0]).collect();
    used.sort_unstable();
    used.dedup();

    // nets <-> nodes, by every one of the names
    let mut map = HashMap::new();
    let mut back: HashMap<usize, usize> = HashMap::new();
    for k in &used {
        let mut id = None;
        for name in &f.names[*k] {
            let got = ckt.get_node_id(name);
            match (got, id) {
                // the other names are aliases of ports: optional, but never wrong
                (None, Some(_)) => {}
                (None, None) => return Err(format!("no node is called {}", name)),
                (Some(g), None) => id = Some(g),
                (Some(g), Some(i)) if g != i => {
                    return Err(format!("{} is node {} but {} is node {}", f.names[*k][0], i, name, g))
                }
                _ => {}
            }
        }
        let id = id.unwrap_or(0);
        if let Some(o) = back.insert(id, *k) {
            return Err(format!("{} and {} are both node {}", f.names[o][0], f.names[*k][0], id));
        }
        if id >= used.len() {
            return Err(format!("{} is node {} of {}", f.names[*k][0], id, used.len()));
        }
        map.insert(*k, id);
    }
    if map[&0] != 0 {
        return Err(format!("ground is node {}", map[&0]));
    }
    if ckt.count_nodes() != used.len() {
        return Err(format!("{} nodes counted, expected {}", ckt.count_nodes(), used.len()));
    }

    // elements, as multisets
    let obs = observe(ckt)?;
    let mut left: Vec<Option<&Prim>> = obs.iter().map(|o| Some(&o.0)).collect();
    for p in &f.prims {
        let nets: Vec<usize> = p.nets.iter().map(|k| map[k]).collect();
        let hit = left.iter().position(|o| match o {
            Some(o) => {
                o.kind == p.kind && o.nets == nets
                    && o.vals.len() == p.vals.len() && o.vals.iter().zip(&p.vals).all(|(a, b)| near(*a, *b))
            }
            None => false,
        });
        match hit {
            Some(k) => left[k] = None,
            None => {
                let have: Vec<&Prim> = left.iter().flatten().filter(|o| o.kind == p.kind).copied().collect();
                return Err(format!("{} between nodes {:?} with values {:?} is missing; left over of that kind: {:?}", p.path, nets, p.vals, have));
            }
        }
    }
    if let Some(o) = left.iter().flatten().next() {
        return Err(format!("element that is not in the deck: {:?}", o));
    }

    // branches
    let mut idx: Vec<usize> = obs.iter().filter_map(|o| o.1).collect();
    idx.sort_unstable();
    if idx != (0..idx.len()).collect::<Vec<_>>() {
        return Err(format!("voltage sources have the indices {:?}", idx));
    }
    if ckt.count_voltage_sources() != idx.len() {
        return Err(format!("{} voltage sources counted of {}", ckt.count_voltage_sources(), idx.len()));
    }
    Ok(map)
}

/// The names of the nodes in the order of the columns
pub fn labels(f: &Flat, map: &HashMap<usize, usize>) -> Vec<String> {
    let mut v = vec![String::new(); map.len()];
    for (k, id) in map {
        v[*id] = f.names[*k][0].clone();
    }
    v
}

/// For each branch of the reference elements, which branch of the expanded circuit it is. Found
/// by matching, so it works for any order; identical sources in parallel are interchangeable.
pub fn branches(f: &Flat, map: &HashMap<usize, usize>, ckt: &Circuit) -> Result<Vec<usize>, String> {
    let mut obs: Vec<(Prim, usize)> = observe(ckt)?.into_iter().filter_map(|(p, i)| i.map(|i| (p, i))).collect();
    let mut out = vec![];
    for p in f.prims.iter().filter(|p| "VvwE".contains(p.kind)) {
        let nets: Vec<usize> = p.nets.iter().map(|k| map[k]).collect();
        let k = obs
            .iter()
            .position(|(o, _)| o.kind == p.kind && o.nets == nets && o.vals.iter().zip(&p.vals).all(|(a, b)| near(*a, *b)))
            .ok_or(format!("no branch for {}", p.path))?;
        out.push(obs.remove(k).1);
    }
    Ok(out)
}


