//! C18 control blocks
use super::util::*;
use crate::harness::*;
use crate::net::tuples;
use crate::wave;
use std::path::Path;
use tiny_spice::analysis::{Configuration, Kind};
use tiny_spice::engine::Engine;

pub fn def() -> PropDef {
    PropDef {
        id: "C18",
        run,
        rule: "every sequence of up to 4 (thorough 5) commands over an alphabet of analyses, options, unknown and commented-out commands and block boundaries; the configuration compared with a fold of the documented meaning of each command, and for up to 2 (thorough 3) commands the analysis run",
        hang_s: 20,
    }
}

#[derive(Clone, Copy)]
enum Act {
    Op,
    Tran(f64, f64, Option<f64>),
    Abstol(f64),
    Reltol(f64),
    Rmax(f64),
    Nothing,
}
use self::Act::*;

const CMDS: &[(&str, Act)] = &[
    ("op", Op),
    ("tran 1u 100u", Tran(1e-6, 1e-4, None)),
    ("  tran   2.5u\t40u 10u  ; tran 1 2", Tran(2.5e-6, 4e-5, Some(1e-5))),
    ("tran 1n 50n 0", Tran(1e-9, 5e-8, Some(0.0))),
    ("option ABSTOL = 1p", Abstol(1e-12)),
    ("option ABSTOL = 1e-7", Abstol(1e-7)),
    ("option ABSTOL = 3m", Abstol(3e-3)),
    ("option RELTOL = 0.01", Reltol(0.01)),
    ("option RELTOL = 1e-6 ; option RMAX = 9", Reltol(1e-6)),
    ("option RMAX = 2", Rmax(2.0)),
    ("\toption\tRMAX\t=\t0.5", Rmax(0.5)),
    ("option", Nothing),
    ("option FOO = 3", Nothing),
    ("plot v(n1)", Nothing),
    ("run", Nothing),
    ("Option RMAX = 7", Nothing),
    ("operate", Nothing),
    ("transient 1 2", Nothing),
    ("* op", Nothing),
    ("*tran 3u 4u", Nothing),
    ("; tran 5u 6u", Nothing),
    ("", Nothing),
    (".endc\nC7 n2 0 1n\n.control", Nothing),
    (".endc ; op\n* tran 1 2 3\n\n.control ; op", Nothing),
    ("R9 n1 0 5", Nothing),
    (".ends", Nothing),
];

struct Want {
    kind: Option<bool>, // transient?
    tstep: f64,
    tstop: f64,
    /// 0 if the last tran doesn't give one, whatever earlier ones say
    tstart: f64,
    abstol: f64,
    reltol: f64,
    rmax: f64,
    caps: usize,
}

fn fold(ix: &[usize]) -> Want {
    let d = Configuration::new();
    let mut w = Want { kind: None, tstep: d.TSTEP, tstop: d.TSTOP, tstart: d.TSTART, abstol: d.ABSTOL, reltol: d.RELTOL, rmax: d.RMAX, caps: 0 };
    for k in ix {
        match CMDS[*k].1 {
            Op => w.kind = Some(false),
            Tran(a, b, s) => {
                w.kind = Some(true);
                w.tstep = a;
                w.tstop = b;
                w.tstart = s.unwrap_or(0.0);
            }
            Abstol(v) => w.abstol = v,
            Reltol(v) => w.reltol = v,
            Rmax(v) => w.rmax = v,
            Nothing => {}
        }
        if CMDS[*k].0.contains("C7") {
            w.caps += 1;
        }
    }
    w
}

fn same(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * b.abs()
}

/// There is no command that sets these
fn untouched(cf: &Configuration) -> Result<(), String> {
    let d = Configuration::new();
    for (name, got, want) in [
        ("VNTOL", cf.VNTOL, d.VNTOL), ("GMIN", cf.GMIN, d.GMIN), ("TDEGC", cf.TDEGC, d.TDEGC),
        ("FS", cf.FS, d.FS), ("FT", cf.FT, d.FT), ("RMIN", cf.RMIN, d.RMIN),
        ("ITL1", cf.ITL1 as f64, d.ITL1 as f64), ("ITL3", cf.ITL3 as f64, d.ITL3 as f64), ("ITL4", cf.ITL4 as f64, d.ITL4 as f64),
    ] {
        if !same(got, want) {
            return Err(format!("{} is {:e}, expected its default {:e}", name, got, want));
        }
    }
    Ok(())
}

fn text(ix: &[usize], place: usize, blocks: bool) -> String {
    let cmds: Vec<&str> = ix.iter().map(|k| CMDS[*k].0).collect();
    let block = if blocks {
        // one block per command
        cmds.iter().map(|c| format!(".control\n{}\n.endc\n", c)).collect::<String>()
    } else {
        format!(".control\n{}\n.endc\n", cmds.join("\n"))
    };
    let (a, b) = ("V1 n1 0 SIN(1 2 10k)\nX1 n1 n2 s\n", ".subckt s a b\nR1 a b 1k\n.ends\nR2 n2 0 3k\n");
    match place {
        0 => format!("t\n{}{}{}", block, a, b),
        1 => format!("t\n{}{}{}", a, block, b),
        3 => format!("t\n{}{}{}", a, b.replacen('\n', &format!("\n{}", block), 1), ""),
        _ => format!("t\n{}{}{}", a, b, block),
    }
}

fn check(txt: &str, ix: &[usize], run: bool, c: &mut Case) -> Result<(), String> {
    let w = fold(ix);
    let (ckt, cf) = read_deck(txt)?;
    c.steps(ix.len());
    c.validated();
    let kind = match cf.kind {
        None => None,
        Some(Kind::DcOperatingPoint) => Some(false),
        Some(Kind::Transient) => Some(true),
        Some(_) => return Err("neither op nor tran".to_string()),
    };
    if kind != w.kind {
        return Err(format!("analysis is {:?} (transient?), expected {:?}", kind, w.kind));
    }
    for (name, got, want) in [
        ("TSTEP", cf.TSTEP, w.tstep), ("TSTOP", cf.TSTOP, w.tstop),
        ("ABSTOL", cf.ABSTOL, w.abstol), ("RELTOL", cf.RELTOL, w.reltol), ("RMAX", cf.RMAX, w.rmax),
    ] {
        if !same(got, want) {
            return Err(format!("{} is {:e}, expected {:e}", name, got, want));
        }
    }
    untouched(&cf)?;
    if !same(cf.TSTART, w.tstart) {
        return Err(format!("TSTART is {:e}, expected {:e}", cf.TSTART, w.tstart));
    }
    let els = element_texts(&ckt)?;
    if els.len() != 3 + w.caps {
        return Err(format!("elements are {:?}", els));
    }
    c.saw(&(kind, cf.TSTOP.to_bits(), cf.ABSTOL.to_bits(), cf.RELTOL.to_bits(), cf.RMAX.to_bits()));
    if !run {
        return Ok(());
    }

    let file = Path::new("waves/d.spi/tran.dat");
    let _ = std::fs::remove_dir_all("waves");
    let mut eng = Engine::new();
    let st = eng.go(&ckt, &cf);
    c.step();
    match (w.kind, st) {
        (None, None) => {
            if Path::new("waves").exists() {
                return Err("no analysis, but there are waves".to_string());
            }
        }
        (Some(false), Some(st)) => {
            if format!("{}", st.kind) != format!("{}", Kind::DcOperatingPoint) {
                return Err(format!("op ran a {}", st.kind));
            }
            if file.exists() {
                return Err("op wrote a transient".to_string());
            }
            // node voltages: 1 V over 1k and 3k
            let x = eng.dc().ok_or("no operating point")?;
            let n2 = ckt.get_node_id("n2").ok_or("n2")?;
            if !close(x[n2], 0.75, 1e-9, 1.0) {
                return Err(format!("v(n2) is {}", x[n2]));
            }
        }
        (Some(true), Some(st)) => {
            if format!("{}", st.kind) != format!("{}", Kind::Transient) {
                return Err(format!("tran ran a {}", st.kind));
            }
            let wv = wave::load(file)?;
            let ts: Vec<f64> = wv.rows.iter().map(|r| r.0).collect();
            if !same(st.end, w.tstop) || ts.last().map_or(true, |t| !same(*t, w.tstop)) {
                return Err(format!("tran ended at {:e}, last row {:?}, expected {:e}", st.end, ts.last(), w.tstop));
            }
            if ts[0] != 0.0 || ts[1..].iter().any(|t| *t < cf.TSTART * (1.0 - 1e-12)) {
                return Err(format!("rows at {:?}, start time {:e}", &ts[..2], cf.TSTART));
            }
            let biggest = ts[1..].windows(2).map(|p| p[1] - p[0]).fold(0.0, f64::max);
            if biggest > w.rmax * w.tstep * (1.0 + 1e-6) {
                return Err(format!("biggest step is {:e}, RMAX*TSTEP is {:e}", biggest, w.rmax * w.tstep));
            }
        }
        (want, got) => return Err(format!("expected {:?} (transient?), got a result: {}", want, got.is_some())),
    }
    Ok(())
}

fn run(cx: &mut Cx) {
    for len in 0..=cx.by(4, 5) {
        cx.family(&format!("all sequences of {} commands", len));
        tuples(len, CMDS.len(), &mut |ix| {
            let k = ix.iter().fold(3usize, |a, b| a * 31 + b);
            let deep = len <= cx.by(2, 3);
            for place in 0..4 {
                // what follows a block in a definition belongs to the definition
                if place == 3 && ix.iter().any(|k| CMDS[*k].0.contains("C7")) {
                    continue;
                }
                for blocks in [false, true] {
                    // longer ones in one of the six forms, and some of them inside a definition
                    if len > 2 && (place != k % 3 || blocks != ((k / 3) % 2 == 0)) && (place != 3 || len > 3 || blocks || k % 5 != 0) {
                        continue;
                    }
                    let t = text(ix, place, blocks);
                    cx.case(&|| t.clone(), &mut |c| check(&t, ix, deep, c));
                }
            }
        });
    }

    cx.family("any number of commands and blocks");
    for len in 5..=cx.deep(60, 120, 400) {
        for stride in [1usize, 3, 7, 11, 25] {
            for first in [0, 9, 17] {
                let ix: Vec<usize> = (0..len).map(|k| (first + k * stride) % CMDS.len()).collect();
                for blocks in [false, true] {
                    let t = text(&ix, (len + first) % 3, blocks);
                    cx.case(&|| t.clone(), &mut |c| check(&t, &ix, false, c));
                }
            }
        }
        // one of each between many that say nothing
        for (k, at) in (0..11).flat_map(|k| [0, len / 2, len - 1].map(|at| (k, at))) {
            let mut ix: Vec<usize> = (0..len).map(|k| 13 + k % 9).collect();
            ix[at] = k;
            let t = text(&ix, 2, len % 2 == 0);
            cx.case(&|| t.clone(), &mut |c| check(&t, &ix, false, c));
        }
    }

    cx.family("values of options and transient settings");
    let vals: &[(&str, f64)] = &[("1", 1.0), ("10u", 1e-5), ("2.5e-3", 2.5e-3), ("7m", 7e-3), ("0.125", 0.125), ("3p", 3e-12), ("1k", 1e3), ("1e-20", 1e-20), ("1e20", 1e20)];
    for (ta, va) in vals {
        for (tb, vb) in vals {
            for (tc, vc) in vals {
                for form in 0..3 {
                    let t = match form {
                        0 => format!("t\nV1 a 0 1\n.control\ntran {} {} {}\n.endc\n", ta, tb, tc),
                        1 => format!("t\nV1 a 0 1\n.control\noption ABSTOL = {}\noption RELTOL = {}\noption RMAX = {}\n.endc\n", ta, tb, tc),
                        _ => format!("t\n.control\noption RMAX = {}\n.endc\nV1 a 0 1\n.control\ntran {} {}\noption RELTOL = 1\n.endc\n", ta, tb, tc),
                    };
                    cx.case(&|| t.clone(), &mut |c| {
                        let (_, cf) = read_deck(&t)?;
                        c.step();
                        c.validated();
                        c.saw(&t);
                        let d = Configuration::new();
                        let (got, want) = match form {
                            0 => ([cf.TSTEP, cf.TSTOP, cf.TSTART, cf.ABSTOL, cf.RELTOL, cf.RMAX], [*va, *vb, *vc, d.ABSTOL, d.RELTOL, d.RMAX]),
                            1 => ([cf.TSTEP, cf.TSTOP, cf.TSTART, cf.ABSTOL, cf.RELTOL, cf.RMAX], [d.TSTEP, d.TSTOP, d.TSTART, *va, *vb, *vc]),
                            _ => ([cf.TSTEP, cf.TSTOP, cf.TSTART, cf.ABSTOL, cf.RELTOL, cf.RMAX], [*vb, *vc, d.TSTART, d.ABSTOL, 1.0, *va]),
                        };
                        if got.iter().zip(&want).any(|(a, b)| !same(*a, *b)) {
                            return Err(format!("TSTEP TSTOP TSTART ABSTOL RELTOL RMAX are {:?}, expected {:?}", got, want));
                        }
                        untouched(&cf)
                    });
                }
            }
        }
    }
}
