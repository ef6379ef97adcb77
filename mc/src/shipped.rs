//! The decks that come with the simulator (copies are in `mc/decks`), read by a parser of our own into
//! the reference model, and everything that is one edit away from them.

use crate::hier::*;
use crate::net::PwlSpec;

pub struct Shipped {
    pub name: &'static str,
    pub text: &'static str,
    pub deck: Deck,
    /// step and stop time
    pub tran: Option<(f64, f64)>,
}

macro_rules! decks {
    ($($f:literal),* $(,)?) => {
        &[$(($f, include_str!(concat!("../decks/", $f)))),*]
    };
}

const TEXTS: &[(&str, &str)] = decks!(
    "diff_opamp.spi",
    "dm_trigger.spi",
    "fullwave_rectifier.spi",
    "kick_drum.spi",
    "multilevel_subckt_fullwave_rectifier.spi",
    "named_fullwave_rectifier.spi",
    "opamp_basic.spi",
    "opamp_v_basic.spi",
    "param_fullwave_rectifier.spi",
    "stacked_vsin.spi",
    "subckt_fullwave_rectifier.spi",
    "test_bridge_loaded_sine.spi",
    "test_dc_bridge_p.spi",
    "test_ir_drev.spi",
    "test_ird.spi",
    "test_irrc.spi",
    "test_irrc_hpf.spi",
    "test_irrrr.spi",
    "test_reader.spi",
    "test_vvrrr.spi",
    "v_pwl.spi",
    "vc_vs_cs.spi",
    "vc_vs_cs_basic.spi",
);

/// 4.7k and the like
pub fn number(t: &str) -> f64 {
    let t = t.trim();
    let end = t.find(|c: char| !(c.is_ascii_digit() || "+-.".contains(c))).unwrap_or(t.len());
    let (m, rest) = t.split_at(end);
    if let Some(e) = rest.strip_prefix('e') {
        return format!("{}e{}", m, e).parse().expect("number");
    }
    let e = match rest.chars().next() {
        Some('k') => "e3",
        Some('m') => "e-3",
        Some('u') => "e-6",
        Some('n') => "e-9",
        Some('p') => "e-12",
        _ => "",
    };
    format!("{}{}", m, e).parse().expect("number")
}

fn value(w: &[&str]) -> Val {
    let t = w.join(" ");
    if t.is_empty() {
        return Val::None;
    }
    if let Some(p) = t.strip_prefix('{') {
        return Val::Param(p.trim_end_matches('}').trim().to_string());
    }
    let inside = |t: &str| -> Vec<f64> {
        let a = t.find('(').expect("(") + 1;
        let b = t.find(')').expect(")");
        t[a..b].split([',', ' ']).filter(|x| !x.is_empty()).map(number).collect()
    };
    if t.starts_with("SIN") {
        let v = inside(&t);
        return Val::Sin([v[0], v[1], v[2]]);
    }
    if t.starts_with("PWL") {
        let v = inside(&t);
        let opt = |k: &str| w.iter().find_map(|x| x.strip_prefix(k)).map(number);
        return Val::Pwl(PwlSpec { pat: v.chunks(2).map(|c| (c[0], c[1])).collect(), td: opt("td=").unwrap_or(0.0), rep: opt("r=").is_some() });
    }
    Val::Lit(t.clone(), number(&t))
}

fn pairs(w: &[&str]) -> Vec<(String, Val)> {
    w.iter().filter_map(|x| x.split_once('=')).map(|(k, v)| (s(k), value(&[v]))).collect()
}

fn parse(text: &str) -> (Deck, Option<(f64, f64)>) {
    let mut d = Deck::default();
    let mut tran = None;
    let (mut in_control, mut in_sub) = (false, false);
    let mut control = vec![];
    for l in text.lines().skip(1) {
        let l = l.split(';').next().expect("a line");
        let w: Vec<&str> = l.split_whitespace().collect();
        let Some(first) = w.first() else { continue };
        if first.starts_with('*') || *first == ":" {
            continue;
        }
        match *first {
            ".control" => in_control = true,
            ".endc" => in_control = false,
            ".ends" => in_sub = false,
            ".subckt" => {
                in_sub = true;
                let ports = w[2..].iter().filter(|x| !x.contains('=')).map(|x| s(x)).collect();
                d.subs.push(Sub { name: s(w[1]), ports, params: pairs(&w), items: vec![] });
            }
            "tran" if in_control => {
                tran = Some((number(w[1]), number(w[2])));
                control.push(w.join(" "));
            }
            _ if in_control => control.push(w.join(" ")),
            _ => {
                let nn = match first.chars().next() {
                    Some('E' | 'G') => 4,
                    _ => 2,
                };
                let it = if first.starts_with('X') {
                    let plain: Vec<&str> = w.iter().copied().filter(|x| !x.contains('=')).collect();
                    let k = plain.len() - 1;
                    Item::X { name: s(first), conns: plain[1..k].iter().map(|x| s(x)).collect(), sub: s(plain[k]), over: pairs(&w) }
                } else {
                    Item::El { name: s(first), nodes: w[1..=nn].iter().map(|x| s(x)).collect(), val: value(&w[nn + 1..]) }
                };
                match d.subs.last_mut() {
                    Some(u) if in_sub => u.items.push(it),
                    _ => d.top.push(it),
                }
            }
        }
    }
    d.control = control.join("\n");
    (d, tran)
}

pub fn all() -> Vec<Shipped> {
    TEXTS
        .iter()
        .map(|(name, text)| {
            let (deck, tran) = parse(text.strip_suffix(":\n").unwrap_or(text));
            Shipped { name, text, deck, tran }
        })
        .collect()
}

impl Shipped {
    /// as written but for what is after the last control block
    pub fn plain(&self) -> String {
        match self.text.rfind(".endc") {
            Some(k) => format!("{}.endc\n", &self.text[..k]),
            None => s(self.text),
        }
    }
    /// the same circuit for so many of its steps
    pub fn short(&self, steps: f64) -> Deck {
        let (dt, stop) = match self.tran {
            Some((a, b)) if a > 0.0 => (a, b.min(a * steps)),
            _ => (1e-5, 1e-5 * steps),
        };
        Deck { control: format!("tran {:e} {:e}", dt, stop), ..self.deck.clone() }
    }
    pub fn has(&self, kinds: &str) -> bool {
        let k = |i: &Item| matches!(i, Item::El { name, .. } if kinds.contains(&name[..1]));
        self.deck.top.iter().any(k) || self.deck.subs.iter().any(|u| u.items.iter().any(k))
    }
}

/// The scopes of a deck: the top level and every definition
pub fn scopes(d: &Deck) -> usize {
    d.subs.len() + 1
}
pub fn items(d: &Deck, scope: usize) -> &Vec<Item> {
    if scope == 0 {
        &d.top
    } else {
        &d.subs[scope - 1].items
    }
}
pub fn items_mut(d: &mut Deck, scope: usize) -> &mut Vec<Item> {
    if scope == 0 {
        &mut d.top
    } else {
        &mut d.subs[scope - 1].items
    }
}

/// Every net of a scope
pub fn nets(d: &Deck, scope: usize) -> Vec<String> {
    let mut v = if scope == 0 { vec![] } else { d.subs[scope - 1].ports.clone() };
    for i in items(d, scope) {
        v.extend(match i {
            Item::El { nodes, .. } => nodes.clone(),
            Item::X { conns, .. } => conns.clone(),
        });
    }
    v.sort();
    v.dedup();
    v
}

/// Every deck with one terminal or connection on another net
pub fn rewired(d: &Deck) -> Vec<Deck> {
    let mut out = vec![];
    for sc in 0..scopes(d) {
        let mut ns = nets(d, sc);
        for extra in ["gnd", "0", "GND", "zz"] {
            if !ns.iter().any(|x| x == extra) {
                ns.push(s(extra));
            }
        }
        for k in 0..items(d, sc).len() {
            let terms = match &items(d, sc)[k] {
                Item::El { nodes, .. } => nodes.len(),
                Item::X { conns, .. } => conns.len(),
            };
            for t in 0..terms {
                for x in &ns {
                    let mut e = d.clone();
                    let at = match &mut items_mut(&mut e, sc)[k] {
                        Item::El { nodes, .. } => &mut nodes[t],
                        Item::X { conns, .. } => &mut conns[t],
                    };
                    if at != x {
                        *at = x.clone();
                        out.push(e);
                    }
                }
            }
        }
    }
    out
}

/// Every deck with one card left out, one written twice, or two cards in each other's place
pub fn recut(d: &Deck) -> Vec<Deck> {
    let mut out = vec![];
    for sc in 0..scopes(d) {
        for k in 0..items(d, sc).len() {
            let mut e = d.clone();
            items_mut(&mut e, sc).remove(k);
            out.push(e);
            let mut e = d.clone();
            let mut again = items(d, sc)[k].clone();
            match &mut again {
                Item::El { name, .. } | Item::X { name, .. } => name.push_str("zz"),
            }
            items_mut(&mut e, sc).push(again);
            out.push(e);
        }
    }
    out.extend(swapped(d));
    out
}

/// Every two cards of a scope, or two definitions, in each other's place
pub fn swapped(d: &Deck) -> Vec<Deck> {
    let mut out = vec![];
    for sc in 0..scopes(d) {
        for k in 0..items(d, sc).len() {
            for j in 0..k {
                let mut e = d.clone();
                items_mut(&mut e, sc).swap(j, k);
                e.subs_first = (j + k) % 2 == 1;
                out.push(e);
            }
        }
    }
    for k in 0..d.subs.len() {
        for j in 0..k {
            let mut e = d.clone();
            e.subs.swap(j, k);
            out.push(e);
        }
    }
    out
}

/// Every deck with one number another one
pub fn revalued(d: &Deck, f: &dyn Fn(char, f64) -> Vec<f64>) -> Vec<Deck> {
    let mut out = vec![];
    for sc in 0..scopes(d) {
        for k in 0..items(d, sc).len() {
            let mut put = |j: usize, v: f64| {
                let mut e = d.clone();
                match &mut items_mut(&mut e, sc)[k] {
                    Item::El { val: Val::Sin(p), .. } => p[j] = v,
                    Item::El { val, .. } => *val = Val::Num(v),
                    Item::X { over, .. } => over[j].1 = Val::Num(v),
                }
                out.push(e);
            };
            match &items(d, sc)[k] {
                Item::El { name, val, .. } => {
                    let kind = name.chars().next().unwrap_or('?');
                    match val {
                        Val::Num(v) | Val::Lit(_, v) => f(kind, *v).into_iter().for_each(|v| put(0, v)),
                        Val::Sin(p) => {
                            f(kind, p[0] + 0.5).into_iter().for_each(|v| put(0, v));
                            f(kind, p[1]).into_iter().for_each(|v| put(1, v));
                            f('F', p[2]).into_iter().for_each(|v| put(2, v));
                        }
                        _ => {}
                    }
                }
                Item::X { over, .. } => {
                    for (j, (_, v)) in over.iter().enumerate() {
                        if let Val::Num(v) | Val::Lit(_, v) = v {
                            f('X', *v).into_iter().for_each(|v| put(j, v));
                        }
                    }
                }
            }
        }
    }
    for k in 0..d.subs.len() {
        for (j, (_, v)) in d.subs[k].params.iter().enumerate() {
            if let Val::Num(v) | Val::Lit(_, v) = v {
                for v in f('X', *v) {
                    let mut e = d.clone();
                    e.subs[k].params[j].1 = Val::Num(v);
                    out.push(e);
                }
            }
        }
    }
    out
}

/// Every deck where one more value is a parameter: one of its definition, given by an instance or by default
pub fn parameterised(d: &Deck) -> Vec<Deck> {
    let mut out = vec![];
    for k in 0..d.subs.len() {
        for j in 0..d.subs[k].items.len() {
            let Item::El { name, val: Val::Lit(..) | Val::Num(_) | Val::Param(_), .. } = &d.subs[k].items[j] else { continue };
            if !"RCEG".contains(&name[..1]) {
                continue;
            }
            for (own, over) in [(false, None), (true, None), (true, Some(n(4700.0))), (true, Some(n(0.0)))] {
                let mut e = d.clone();
                let p = if own {
                    e.subs[k].params.push((s("zp"), n(33.0)));
                    s("zp")
                } else {
                    match d.subs[k].params.first() {
                        Some(p) => p.0.clone(),
                        None => continue,
                    }
                };
                if let Item::El { val, .. } = &mut e.subs[k].items[j] {
                    *val = Val::Param(p);
                }
                match over {
                    None => out.push(e),
                    Some(v) => {
                        let def = d.subs[k].name.clone();
                        for sc in 0..scopes(d) {
                            for i in 0..items(d, sc).len() {
                                let mut g = e.clone();
                                match &mut items_mut(&mut g, sc)[i] {
                                    Item::X { sub, over, .. } if *sub == def => over.push((s("zp"), v.clone())),
                                    _ => continue,
                                }
                                out.push(g);
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

/// With every source at one value
pub fn at_level(d: &Deck, level: f64) -> Deck {
    let mut e = d.clone();
    for sc in 0..scopes(d) {
        for i in items_mut(&mut e, sc) {
            if let Item::El { val, .. } = i {
                match val {
                    Val::Sin(p) => *val = Val::Num(p[0] + level * p[1]),
                    Val::Pwl(p) => *val = Val::Num(level * p.pat.iter().fold(0.0f64, |m, x| m.max(x.1))),
                    _ => {}
                }
            }
        }
    }
    e
}
