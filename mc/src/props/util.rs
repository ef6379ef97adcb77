//! Shared helpers of the property modules
use crate::net::*;
use crate::wave::Wave;
use std::collections::HashMap;
use std::path::Path;
use tiny_spice::analysis::Configuration;
use tiny_spice::circuit::Circuit;
use tiny_spice::spice::Reader;

pub fn cfg() -> Configuration {
    Configuration::new()
}

pub fn close(a: f64, b: f64, rel: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= rel * scale.max(a.abs()).max(b.abs())
}

/// A deck of plain cards, in order, with an optional control block
pub fn deck(els: &[El], control: &str) -> String {
    let mut s = String::from("title\n");
    for (k, e) in els.iter().enumerate() {
        s += &e.card(k, &node_name);
        s.push('\n');
    }
    if !control.is_empty() {
        s += ".control\n";
        s += control;
        s += "\n.endc\n";
    }
    s
}

pub fn node_name(n: usize) -> String {
    if n == 0 {
        "0".to_string()
    } else {
        format!("n{}", n)
    }
}

/// Read a deck from text. `Err` if it reports errors.
pub fn read_deck(text: &str) -> Result<(Circuit, Configuration), String> {
    std::fs::write("d.spi", raw(text)).map_err(|e| e.to_string())?;
    let mut r = Reader::new();
    if r.read(Path::new("d.spi")) {
        return Err("the reader reports errors in the deck".to_string());
    }
    Ok((r.get_expanded_circuit(), r.configuration().clone()))
}

/// For each voltage source of the deck in order, which branch of the circuit that was read it is
pub fn deck_branches(els: &[El], ckt: &Circuit) -> Result<Vec<usize>, String> {
    let mut obs: Vec<_> = crate::hier::observe(ckt)?.into_iter().filter_map(|(p, i)| i.map(|i| (p, i))).collect();
    let mut out = vec![];
    for e in els {
        let (kind, vals) = match e {
            El::V(_, _, v) => ('V', vec![*v]),
            El::Vs(_, _, p) => ('v', p.to_vec()),
            El::Vp(_, _, s) => {
                let mut v = vec![s.td, if s.rep { 1.0 } else { 0.0 }];
                v.extend(s.pat.iter().flat_map(|q| [q.0, q.1]));
                ('w', v)
            }
            El::E(_, _, _, _, k) => ('E', vec![*k]),
            _ => continue,
        };
        let mut nets = vec![];
        for n in e.nodes() {
            nets.push(ckt.get_node_id(&node_name(n)).ok_or(format!("no node {}", node_name(n)))?);
        }
        let k = obs
            .iter()
            .position(|(o, _)| o.kind == kind && o.nets == nets && o.vals.len() == vals.len() && o.vals.iter().zip(&vals).all(|(a, b)| crate::hier::near(*a, *b)))
            .ok_or(format!("no branch for {:?}", e))?;
        out.push(obs.remove(k).1);
    }
    Ok(out)
}

/// Elements as text, with the names of their nodes, sorted
pub fn element_texts(ckt: &Circuit) -> Result<Vec<String>, String> {
    let mut v = vec![];
    for (p, _) in crate::hier::observe(ckt)? {
        let mut t = format!("{}", p.kind);
        for n in &p.nets {
            t += " ";
            t += ckt.node_id_lut.get(n).ok_or(format!("node {} has no name", n))?;
        }
        for x in &p.vals {
            t += &format!(" {:.9e}", x);
        }
        v.push(t);
    }
    v.sort();
    Ok(v)
}

/// The same form for reference elements: kind, node names, values
pub fn text_of(kind: char, nodes: &[&str], vals: &[f64]) -> String {
    let mut t = format!("{}", kind);
    for n in nodes {
        t += " ";
        t += if crate::hier::is_gnd(n) { "gnd" } else { n };
    }
    for x in vals {
        t += &format!(" {:.9e}", x);
    }
    t
}

/// Text to bytes: U+E000 to U+E0FF stand for single bytes, so decks needn't be UTF-8
pub fn raw(text: &str) -> Vec<u8> {
    let mut v = vec![];
    for ch in text.chars() {
        match u32::from(ch) {
            n @ 0xe000..=0xe0ff => v.push((n - 0xe000) as u8),
            _ => v.extend(ch.encode_utf8(&mut [0; 4]).bytes()),
        }
    }
    v
}

/// The character which `raw` makes into a byte
pub fn byte(b: u8) -> char {
    char::from_u32(0xe000 + u32::from(b)).unwrap_or('?')
}

/// Rows of a waveform file with the nodes and branches in the order of the reference
pub fn in_order(rows: &[(f64, Vec<f64>)], used: &[usize], map: &HashMap<usize, usize>, br: &[usize]) -> Wave {
    let nn = used.len();
    let rows = rows
        .iter()
        .map(|(t, x)| {
            let mut v: Vec<f64> = used.iter().map(|k| x[map[k]]).collect();
            v.extend(br.iter().map(|b| x[nn + b]));
            (*t, v)
        })
        .collect();
    Wave { names: vec![], units: vec![], rows }
}
