//! C13 decks with errors
use super::cli;
use super::util::{byte, raw};
use crate::harness::*;
use crate::hier::{s, Item, Val};
use crate::shipped;
use crate::net::tuples;
use std::path::Path;
use tiny_spice::spice::Reader;

pub fn def() -> PropDef {
    PropDef {
        id: "C13",
        run,
        rule: "every malformed line of a mutation alphabet (every card kind with every field missing, damaged or extra; unknown elements and commands; bad references; unbalanced definitions; bad libraries; bad control commands) at every position of every host deck, read and expanded in process; each of them also given to the real binary in a scratch directory; pairs with valid lines after them; and every valid line at every position is not rejected; and the decks that come with the simulator (of a kind the property is about) and those one edit away from them",
        hang_s: 20,
    }
}

// ---- host decks: lines with the context they are in

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ctx {
    Top,
    Sub,
    Control,
    /// in the library section which is imported
    Lib,
}

struct Host {
    name: &'static str,
    lines: &'static [&'static str],
    lib: &'static [&'static str],
}

const HOSTS: &[Host] = &[
    Host { name: "flat", lines: &["V1 a 0 5", "R1 a b 1k", "C1 b 0 1u", ".control", "option RELTOL = 1e-3", "tran 1u 20u", ".endc"], lib: &[] },
    Host {
        name: "hierarchical",
        lines: &[
            "V1 a 0 SIN(1 1 10k)", "X1 a b cell p=2k", ".subckt cell x y p=1k q=3k", "R1 x m {p}", "X9 m y inner k={q}", ".ends", "* comment",
            ".subckt inner s t k=5", "R1 s t {k}", "D1 t 0", ".ends", "R2 b 0 1k", "X2 b a cell", ".control", "tran 1u 20u", ".endc", "I1 0 b 1m",
        ],
        lib: &[],
    },
    Host {
        name: "library",
        lines: &[".control", "op", ".endc", "V1 a 0 5", ".lib l.lib sec", "X1 a b cell", "R1 b 0 1k", ".control", "tran 1u 20u", ".endc"],
        lib: &["title", ".lib other", "R7 a b 1k", ".endl", ".lib sec", "R5 a b 2k", ".subckt cell x y", "R1 x y 1k", ".ends", "C5 a b 1u", ".endl"],
    },
];

/// context at each insertion point, i.e. before line k
fn contexts(lines: &[&str], lib: bool) -> Vec<Option<Ctx>> {
    let mut sub = false;
    let mut ctl = false;
    let mut sec = false;
    let mut v = vec![];
    for k in 0..=lines.len() {
        v.push(if lib && (k == 0 || !sec) {
            None
        } else if ctl {
            Some(Ctx::Control)
        } else if sub {
            Some(Ctx::Sub)
        } else if lib {
            Some(Ctx::Lib)
        } else {
            Some(Ctx::Top)
        });
        let w = lines.get(k).copied().unwrap_or("").split_whitespace().collect::<Vec<_>>();
        match w.first().copied() {
            Some(".subckt") => sub = true,
            Some(".ends") => sub = false,
            Some(".control") => ctl = true,
            Some(".endc") => ctl = false,
            Some(".lib") if lib => sec = w[1] == "sec",
            Some(".endl") => sec = false,
            _ => {}
        }
    }
    v
}

/// Malformed lines for places where elements go. Nodes a and b, subcircuits of the host aren't
/// relied on: what is needed comes with the line.
fn bad_elements() -> Vec<(String, &'static str)> {
    let mut v: Vec<(String, &'static str)> = vec![];
    let mut add = |s: &str, w: &'static str| v.push((s.to_string(), w));
    let bad_nodes = ["a-b", "$", "a.b", "n,1", "(a)", "a+", "#1", "é", "a'", "{a}", "a=b", "*", "[1]", "a:b", "-1", "1.5"];
    let bad_vals = ["abc", "k", "x1", "-", "+", "", "{", "}", "{}", "{nope}", "{x", "x}", "{a b}", "=1", "$5", "e5", "--1", "1..", "-k", "NaN", "inf", "{nope}{nope}"];

    // passive and controlled elements: every number of missing fields, every damaged field
    for (card, nodes, vals) in [("R1 a b 1k", 2, 1), ("C1 a b 1u", 2, 1), ("D1 a b", 2, 0), ("E1 c 0 a b 2", 4, 1), ("G1 a 0 a b 1m", 4, 1), ("V1x a 0 1", 2, 1), ("I1x a 0 1m", 2, 1)] {
        let bits: Vec<&str> = card.split_whitespace().collect();
        for keep in 1..bits.len() {
            add(&bits[..keep].join(" "), "missing fields");
        }
        for k in 1..=nodes {
            for b in bad_nodes {
                let mut m = bits.clone();
                m[k] = b;
                add(&m.join(" "), "bad node name");
            }
        }
        if vals > 0 {
            for b in bad_vals {
                // open: "1..", which starts with a number, may be one
                if b == "1.." || b.is_empty() || b == "{a b}" || b == "{nope}{nope}" {
                    continue;
                }
                let mut m = bits.clone();
                m[nodes + 1] = b;
                add(&m.join(" "), "bad value");
            }
        }
    }
    for l in [
        "V1x a 0 1 2", "V1x a 0 DC 5", "V1x a 0 1 AC", "I1x a 0 1m 2m", "I1x a 0 DC 1m",
        "V1x a 0 EXP(1 2 3)", "V1x a 0 sin(1 2 3)", "V1x a 0 PULSE(0 1 2 3)", "I1x a 0 PULSE(0 1 2 3)", "I1x a 0 PWL(0, 1, 2, 3)", "I1x a 0 EXP(1 2 3)",
    ] {
        add(l, "unsupported source");
    }
    for k in ["V1x", "I1x"] {
        for a in ["SIN()", "SIN(", "SIN(1)", "SIN(1 2)", "SIN(1 2 3 4)", "SIN(1 2 x)", "SIN(x 2 3)", "SIN(1 x 3)", "SIN(1 2 {p})", "SIN ( )", "SIN(1, 2, )", "SIN(- 1 2)"] {
            add(&format!("{} a 0 {}", k, a), "bad SIN");
        }
        for b in bad_nodes {
            add(&format!("{} {} 0 SIN(1 2 3)", k, b), "bad node name");
            add(&format!("{} a {} SIN(1 2 3)", k, b), "bad node name");
        }
    }
    for a in ["PWL()", "PWL(", "PWL(0)", "PWL(0, 1, 2)", "PWL(0, 1, 2, )", "PWL(0, x)", "PWL(x, 1)", "PWL(0, 1, x, 3)", "PWL(0, 1, 2, x)", "PWL(0, 1) td=", "PWL(0, 1) td=x", "PWL(0, 1) r=x", "PWL(0, 1) td={p}", "PWL(0, 1) r={p} td=1", "PWL(0, 1) td=1=2", "PWL(, )", "PWL(0, 1, 2, 3,)"] {
        add(&format!("V1x a 0 {}", a), "bad PWL");
    }
    for b in bad_nodes {
        add(&format!("V1x a {} PWL(0, 1)", b), "bad node name");
    }
    for l in [
        "Q1 a b c", "L1 a b 1m", "M1 a b c d", "J1 a b c", "K1 a b 1", "B1 a b v=1", "F1 a b c 1", "H1 a b c 1", "S1 a b c d", "T1 a b c d", "W1 a b c 1", "Z1 a b c", "r1 a b 1k", "c1 a b 1u", "d1 a b", "v1 a 0 5", "i1 a 0 1m", "x1 a b foo", "e1 a b c d 1", "g1 a b c d 1",
        "foo", "1 2 3", "+ 5", "=", "-", "{x}", "R", "C", "D", "E", "G", "V", "I", "tran 1u 2u", "op", "option RMAX = 2", "é", "\\", "/device a b", "\"R1 a b 1\"", "(R1 a b 1)", "&",
    ] {
        add(l, "not an element");
    }
    for l in [".foo", ".include x.spi", ".tran 1u 2u", ".op", ".option RMAX=2", ".model d D", ".param x=1", ".", "..", ".Control", ".SUBCKT s a", ".subcktx s a", ".endss", ".dc", ".ic v(a)=1", ".global x"] {
        add(l, "unsupported dot-command");
    }
    add(".endc", "end of no control block");
    for l in ["X1x", "X1x a b nosuch", "X1x nosuch", "X1x a b c d", "X1x a b p=1", "X1x a b /device", "X1x p=1", "X1x a-b c nosuch"] {
        add(l, "bad instance");
    }
    v
}

/// Malformed lines that need a subcircuit to go with them; "zz a b" is defined at the end
fn bad_instances() -> Vec<(String, &'static str)> {
    let mut v = vec![];
    for l in [
        "X1x zz", "X1x a zz", "X1x a b c zz", "X1x a b c d e zz", "X1x a b ZZ", "X1x a b zz1", "X1x a b z", "X1x a b zz zz",
        "X1x a b zz p=", "X1x a b zz p=x", "X1x a b zz p={nope}", "X1x a b zz p={}", "X1x a b zz p={", "X1x a b zz p=1=2", "X1x a b zz p==1", "X1x a b zz p=-", "X1x a b zz p=1 p2=k",
        "X1x a b zz p = 1", "X1x a b p=1 zz", "X1x a-b b zz", "X1x a $ zz", "X1x a.c b zz p=1", "X1x a b zz p=1 extra",
    ] {
        v.push((l.to_string(), "bad instance"));
    }
    v
}

/// Damaged definitions of a subcircuit with an instance of it: "zy"
fn bad_definitions() -> Vec<(Vec<String>, &'static str)> {
    let mut v = vec![];
    let mut add = |inst: &str, head: &str, body: &[&str], tail: &[&str], w: &'static str| {
        let mut l = vec![inst.to_string(), head.to_string()];
        l.extend(body.iter().map(|s| s.to_string()));
        l.extend(tail.iter().map(|s| s.to_string()));
        v.push((l, w));
    };
    let ok = ["R1 a b 5"];
    let i = "Xy a b zy";
    let end = [".ends"];
    add(i, ".subckt", &ok, &end, "no name");
    add(i, ".subckt zy", &ok, &end, "no ports");
    add(i, ".subckt zy a", &ok, &end, "too few ports");
    add(i, ".subckt zy a b c", &ok, &end, "too many ports");
    add(i, ".subckt zy a a", &ok, &end, "repeated port");
    for g in ["0", "gnd", "GND"] {
        add(i, &format!(".subckt zy a {}", g), &ok, &end, "ground as a port");
        add(i, &format!(".subckt zy {} b", g), &ok, &end, "ground as a port");
    }
    for b in ["a-b", "$", "a.b", "{a}", "*"] {
        add(i, &format!(".subckt zy a {}", b), &ok, &end, "bad port");
        add(i, &format!(".subckt zy {} b", b), &ok, &end, "bad port");
    }
    for p in ["p=", "p=x", "p=1=2", "p={}", "p={", "p={nope}", "p=-", "p==1", "p=k"] {
        add(i, &format!(".subckt zy a b {}", p), &["R1 a b {p}"], &end, "bad parameter");
        add(i, &format!(".subckt zy a b {}", p), &ok, &end, "bad parameter");
    }
    add(i, ".subckt zy a b p=1", &["R1 a b {q}"], &end, "unknown parameter");
    add(i, ".subckt zy a b p=1", &["R1 a b {P}"], &end, "unknown parameter");
    add("Xy a b zy q=1", ".subckt zy a b p=1", &["R1 a b {r}"], &end, "unknown parameter");
    add(i, ".subckt zy a b", &["X1 a b nosuch"], &end, "unknown subcircuit one level down");
    add(i, ".subckt zy a b", &["X1 a b zx", ".ends", ".subckt zx a b c", "R1 a b 1", "R2 b c 1"], &end, "wrong ports one level down");
    add(i, ".subckt zy a b p=1", &["X1 a b zx k={nope}", ".ends", ".subckt zx a b k=1", "R1 a b {k}"], &end, "unknown parameter one level down");
    add(i, ".subckt zy a b p=1", &["X1 a b zx", ".ends", ".subckt zx a b", "R1 a b {p}"], &end, "parameter of the level above");
    add(i, ".subckt zy a b", &[".subckt zx a b", "R1 a b 1", ".ends"], &end, "nested definition");
    add(i, ".subckt zy a b", &[".subckt zx a b", "R1 a b 1", ".ends", "R1 a b 1"], &[], "nested definition");
    add("R4 a b 1", ".ends", &[], &[], "end of no definition");
    add(i, ".subckt zy a b", &ok, &[".ends", ".ends"], "end of no definition");
    add(i, ".subckt zy a b", &["R1 a b 1", "X1 a b zy"], &end, "contains itself");
    add(i, ".subckt zy a b", &["X1 a c zy", "X2 c b zy"], &end, "contains itself");
    add(i, ".subckt zy a b p=1", &["X1 a b zx", ".ends", ".subckt zx a b", "R1 a b 1", "X1 b a zy p=2"], &end, "contains itself two levels down");
    add(i, ".subckt zy a b", &["X1 a b zx", ".ends", ".subckt zx a b", "X2 b a zx", "R1 a b 1"], &end, "one level down contains itself");
    for again in ["Xy a b zy", "Xy b a zy", "Xy 0 a zy", "Xy a b nosuch"] {
        add(i, ".subckt zy a b", &ok, &[".ends", again], "instance name used twice");
        let inner = again.replace("Xy", "X1").replace("zy", "zx");
        add(i, ".subckt zy a b", &["X1 a b zx", "R1 a b 1", inner.as_str(), ".ends", ".subckt zx a b", "R1 a b 1"], &end, "instance name used twice one level down");
    }
    v
}

fn bad_controls() -> Vec<(String, &'static str)> {
    let mut v = vec![];
    for l in ["tran", "tran 1u", "tran x 1m", "tran 1u y", "tran 1u 1m z", "tran 1u {x}", "tran {x} 1", "tran 1u ; 2u", "tran - 1", "tran 1u k"] {
        v.push((l.to_string(), "bad tran"));
    }
    for l in ["tran 0 1m", "tran -1u 1m", "tran 0.0 1m"] {
        v.push((l.to_string(), "impossible timestep"));
    }
    for o in ["RMAX", "ABSTOL", "RELTOL"] {
        for a in ["", "5", "=", "= x", "= k", "=5", "5 = 5", "= {x}", "= -", "== 5", ": 5"] {
            v.push((format!("option {} {}", o, a), "bad option"));
        }
        v.push((format!("option {}=5", o), "bad option"));
    }
    for l in ["option RMAX = 0", "option RMAX = -1"] {
        v.push((l.to_string(), "impossible RMAX"));
    }
    v
}

fn bad_libs() -> Vec<(String, &'static str)> {
    let mut v = vec![];
    for l in [".lib", ".lib l.lib", ".lib nofile.lib sec", ".lib l.lib nosuch", ".lib l.lib SEC", ".lib l.lib sec extra", ".lib nodir/l.lib sec", ".lib empty.lib sec", ".lib unfinished.lib sec", ".lib nested.lib sec", ".lib bad.lib sec", ".lib badsub.lib sec", ".lib . sec", ".endl", ".endl sec"] {
        v.push((l.to_string(), "bad library"));
    }
    v
}

const LIBS: &[(&str, &str)] = &[
    ("empty.lib", "t\n"),
    ("unfinished.lib", "t\n.lib sec\nR8 a b 1\n"),
    ("nested.lib", "t\n.lib sec\n.lib l.lib sec\n.endl\n"),
    ("bad.lib", "t\n.lib sec\nR8 a b\n.endl\n"),
    ("badsub.lib", "t\n.lib sec\n.subckt qq a b\nR8 a b 1\n.endl\n"),
];

const GOOD_LIB: &str = "t\n.lib other\nR7 a b 1k\n.endl\n.lib sec\nR5 a b 2k\n.endl\n";

fn put(deck: &str, lib: Option<&str>, dir: &Path) -> Result<(), String> {
    let w = |n: &str, t: &str| std::fs::write(dir.join(n), raw(t)).map_err(|e| e.to_string());
    w("d.spi", deck)?;
    for (n, t) in LIBS {
        if !dir.join(n).exists() {
            w(n, t)?;
        }
    }
    w("l.lib", lib.unwrap_or(GOOD_LIB))
}

/// What became of a deck
fn outcome(path: &str) -> Result<&'static str, String> {
    let mut r = Reader::new();
    match guard(|| r.read(Path::new(path))) {
        Err(_) => return Ok("reader panics"),
        Ok(true) => return Ok("reader reports errors"),
        Ok(false) => {}
    }
    match guard(|| r.get_expanded_circuit()) {
        Err(_) => Ok("expander panics"),
        Ok(_) => Err("accepted".to_string()),
    }
}

fn must_fail(deck: &str, lib: Option<&str>, what: &str, c: &mut Case) -> Result<(), String> {
    put(deck, lib, Path::new("."))?;
    c.step();
    c.validated();
    match outcome("d.spi") {
        Ok(o) => {
            c.saw(&(o, what));
            Ok(())
        }
        Err(_) => Err(format!("{}: goes unnoticed", what)),
    }
}

fn must_pass(deck: &str, lib: Option<&str>, c: &mut Case) -> Result<(), String> {
    put(deck, lib, Path::new("."))?;
    c.step();
    c.validated();
    c.saw(&deck);
    match outcome("d.spi") {
        Ok(o) => Err(format!("a deck without errors is rejected: {}", o)),
        Err(_) => Ok(()),
    }
}

/// The binary says so, and doesn't simulate
fn must_fail_cli(deck: &str, lib: Option<&str>, what: &str, c: &mut Case) -> Result<(), String> {
    let dir = std::env::current_dir().map_err(|e| e.to_string())?.join("cli");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    put(deck, lib, &dir)?;
    let before = cli::tree(&dir);
    let r = cli::simulate(&dir, &["d.spi"])?;
    c.step();
    c.validated();
    c.saw(&(r.ok, what));
    if !cli::complains(&r) {
        return Err(format!("{}: no error is reported", what));
    }
    let after = cli::tree(&dir);
    if before != after {
        let new: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k)).collect();
        return Err(format!("{}: simulated anyway, there are {:?}", what, new));
    }
    Ok(())
}

/// The binary simulates it without complaint
fn must_pass_cli(deck: &str, lib: Option<&str>, c: &mut Case) -> Result<(), String> {
    let dir = std::env::current_dir().map_err(|e| e.to_string())?.join("cli");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    put(deck, lib, &dir)?;
    let r = cli::simulate(&dir, &["d.spi"])?;
    c.step();
    c.validated();
    c.saw(&deck);
    if !r.ok {
        return Err(format!("a deck without errors is rejected:\n{}", r.text));
    }
    if !dir.join("waves/d.spi/tran.dat").exists() {
        return Err("a deck without errors isn't simulated".to_string());
    }
    Ok(())
}

fn with(lines: &[&str], at: usize, extra: &[&str], tail: &[&str]) -> String {
    let mut l: Vec<&str> = lines.to_vec();
    for (k, e) in extra.iter().enumerate() {
        l.insert(at + k, e);
    }
    l.extend(tail);
    l.join("\n") + "\n"
}

const ZZ: &[&str] = &[".subckt zz a b p=1k", "R1 a b {p}", ".ends"];

const GOOD: &[&str] = &[
    "R9 a b 1k", "R9 a 0 2.2meg ; comment", "C9 a b 10u", "D9 a b", "E9 c 0 a b 2", "G9 a 0 a b 1m", "V9 z 0 5", "V9 z 0 SIN(0 1 1k)", "V9 z 0 SIN( 0 1 1k )", "V9 z 0 PWL(0, 1, 2, 3)", "V9 z 0 PWL(0, 1, 2, 3) td=1u r=0",
    "V9 z 0 PWL(0,1,2,3)", "I9 0 a 1m", "I9 a GND SIN(0 1m 1k)", "X9z a b zz", "X9z a 0 zz p=5", "X9z gnd b zz p=1e3", "* comment", "; comment", "", "   ", "\t", "*", "R_9 n_1 0 1", "R9 1 2 1", "Rx A_B 0 1p", "R9 x9 00 -5", "C9 a b 1e-6", "R9 a b +5", "R9 a b 1.5", "R9 a b 10.",
];
const GOOD_CONTROL: &[&str] = &["op", "tran 1u 10u", "tran 1u 10u 5u", "option RMAX = 2", "option ABSTOL = 1p", "option RELTOL = 1e-5", "option", "plot v(a)", "* x", "; x", "", "run", "quit", "option FOO = 1", "set x = 2", "print v(a) ; b"];

/// Every printable character in a node name of every kind of card
fn node_characters(cx: &mut Cx) {
    cx.family("every character at every place in a node name");
    for ch in (33u8..127).map(char::from).filter(|c| *c != ';') {
        let ok = ch.is_ascii_alphanumeric() || ch == '_';
        for n in [format!("{}", ch), format!("{}b", ch), format!("a{}", ch), format!("a{}b", ch), format!("{}{}", ch, ch)] {
            for card in [
                "R9 # 0 1", "R9 0 # 1", "C9 # 0 1", "C9 0 # 1", "D9 # 0", "D9 0 #", "V9 # 0 1", "V9 0 # 1", "I9 # 0 1", "I9 0 # 1", "V9 # 0 SIN(1 2 3)", "I9 0 # SIN(1 2 3)", "V9 # 0 PWL(0, 1)",
                "E9 # 0 1 0 1", "E9 2 # 1 0 1", "E9 2 0 # 0 1", "E9 2 0 1 # 1", "G9 # 0 1 0 1", "G9 2 # 1 0 1", "G9 2 0 # 0 1", "G9 2 0 1 # 1", "X9 # 0 zz", "X9 0 # zz",
            ] {
                for inside in [false, true] {
                    let line = card.replace('#', &n);
                    let deck = if inside {
                        format!("t\nR1 a 0 1\nX7 a 0 mm\n.subckt mm p q\n{}\n.ends\n{}\n", line, ZZ.join("\n"))
                    } else {
                        format!("t\nR1 a 0 1\n{}\n{}\n", line, ZZ.join("\n"))
                    };
                    cx.case(&|| deck.clone(), &mut |c| if ok { must_pass(&deck, None, c) } else { must_fail(&deck, None, "bad node name", c) });
                }
            }
        }
    }
}

/// Bytes that aren't text: anywhere in comments, but not in node names, numbers and the names of things
fn not_utf8(cx: &mut Cx) {
    cx.family("every byte from 0x80 in comments and outside");
    for b in 0x80..=0xffu8 {
        let ch = byte(b);
        for line in ["* #", "*#", "R9 a 0 1 ; #", "R9 a 0 1 ;#", ";#", "  * R9 # 0 1", "R9 a 0 1;R8 # 0 1", "X9 a 0 zz; # p=#"] {
            for form in 0..4 {
                let line = line.replace('#', &ch.to_string());
                let (deck, lib) = match form {
                    0 => (format!("t\nR1 a 0 1\n{}\n{}\n", line, ZZ.join("\n")), None),
                    1 => (format!("t{}\nR1 a 0 1\nX7 a 0 mm\n.subckt mm p a\n{}\n.ends\n{}\n", ch, line, ZZ.join("\n")), None),
                    2 => (format!("{}\nR1 a 0 1\n.control\n* {}\nop ; {}\n.endc\n", ch, ch, ch), None),
                    // another section can have anything in it
                    _ => (format!("t\nR1 a 0 1\n.lib l.lib sec\n{}\n", ZZ.join("\n")), Some(format!("{}\n{}\n.lib other\nR{} # #\n.endl\n.lib sec\n{}\n.endl\n{}\n", ch, ch, ch, line, ch))),
                };
                cx.case(&|| format!("{:?} {:?}", deck, lib), &mut |c| must_pass(&deck, lib.as_deref(), c));
            }
        }
        for line in ["R9 # 0 1", "R9 a# 0 1", "R9 0 #a 1", "R9 a 0 #", "R9 a 0 #1", "#9 a 0 1", "C9 a 0 #", "D9 # 0", "V9 a 0 #", "V9 # 0 SIN(0 1 2)", "V9 a 0 SIN(0 1 #)", "V9 a 0 PWL(0, #)", "I9 a 0 #", "E9 a 0 a 0 #", "E9 a 0 a # 1", "G9 # 0 a 0 1", "X9 a 0 zz#", "X9 a 0 #zz", "X9 a # zz", ".lib l.lib#", ".lib l.lib sec#", ".lib #l.lib sec", ".#", ".subckt # a#"] {
            let line = line.replace('#', &ch.to_string());
            for inside in [false, true] {
                let deck = if inside {
                    format!("t\nR1 a 0 1\nX7 a 0 mm\n.subckt mm p a\n{}\n.ends\n{}\n", line, ZZ.join("\n"))
                } else {
                    format!("t\nR1 a 0 1\n{}\n{}\n", line, ZZ.join("\n"))
                };
                cx.case(&|| format!("{:?}", deck), &mut |c| must_fail(&deck, None, "not text", c));
            }
        }
    }
}

/// Errors a long way into a deck, and decks with a lot in them
fn long_decks(cx: &mut Cx) {
    cx.family("one malformed line in decks of every length");
    let bad = ["R9 a", "Q1 a b c", "R9 a-b 0 1", "R9 a 0 x", "X9 a 0 nosuch", ".ends", ".control", ".subckt zz a b", "V9 a 0 PWL(0)", ".lib nofile.lib sec", "foo"];
    for n in (0..=cx.deep(120, 400, 2000)).step_by(cx.by(3, 1)) {
        for (bi, b) in bad.iter().enumerate() {
            for form in 0..3 {
                let mut l = vec!["t".to_string()];
                for k in 0..n {
                    l.push(match (k + bi) % 7 {
                        0 => format!("R{} n{} 0 1k", k, k),
                        1 => format!("C{} n{} n{} 1u", k, k, k / 2),
                        2 => format!("* {}", k),
                        3 => format!("X{} n{} 0 zz", k, k),
                        4 => String::new(),
                        5 => format!("V{} n{} 0 SIN(0 1 {})", k, k, k),
                        _ => format!("D{} n{} 0", k, k),
                    });
                }
                let good = l.join("\n") + "\n" + &ZZ.join("\n") + "\n";
                // last, first, or in the middle
                let at = [l.len(), 1, l.len().div_ceil(2)][form];
                l.insert(at, b.to_string());
                l.extend(ZZ.iter().map(|s| s.to_string()));
                let deck = l.join("\n") + "\n";
                cx.case(&|| deck.clone(), &mut |c| must_fail(&deck, None, "one malformed line", c));
                if form == 0 {
                    cx.case(&|| good.clone(), &mut |c| must_pass(&good, None, c));
                }
            }
        }
    }
}

/// The decks that come with the simulator: accepted as they are, and not with anything malformed
/// anywhere in them, nor with one word of a card missing
fn shipped_decks(cx: &mut Cx) {
    cx.family("the decks that come with the simulator");
    for sh in shipped::all() {
        cx.case(&|| s(sh.name), &mut |c| must_pass(&sh.plain(), None, c));
        if sh.name != "test_reader.spi" {
            let mut d = sh.short(20.0);
            cx.case(&|| format!("{}, for 20 steps", sh.name), &mut |c| must_pass_cli(&d.text(), None, c));
            d.subs_first = true;
            cx.case(&|| format!("{}, for 20 steps", sh.name), &mut |c| must_pass_cli(&d.text(), None, c));
        }
    }
    cx.family("the decks that come with the simulator, malformed lines at every position");
    for sh in shipped::all() {
        let plain = sh.plain();
        let lines: Vec<&str> = plain.lines().collect();
        let ctxs = contexts(&lines, false);
        let bad: Vec<(String, &'static str, bool)> = bad_elements().into_iter().map(|x| (x.0, x.1, false)).chain(bad_controls().into_iter().map(|x| (x.0, x.1, true))).collect();
        for (at, here) in ctxs.iter().enumerate().skip(1) {
            let Some(here) = here else { continue };
            for (b, (line, what, control)) in bad.iter().enumerate() {
                if *control != (*here == Ctx::Control) || (!cx.thorough() && b % 7 != at % 7) {
                    continue;
                }
                let deck = with(&lines, at, &[line], &[]);
                cx.case(&|| format!("{}: {}\n{}", sh.name, what, deck), &mut |c| must_fail(&deck, None, what, c));
            }
        }
    }
    cx.family("the decks that come with the simulator, one word of a card missing or once too often");
    for sh in shipped::all() {
        for sc in 0..shipped::scopes(&sh.deck) {
            for (k, it) in shipped::items(&sh.deck, sc).iter().enumerate() {
                let line = it.text();
                let words: Vec<&str> = line.split_whitespace().collect();
                // what may go or come in the middle of the rest is nodes, the value, the subcircuit
                let (fields, plain) = match it {
                    Item::El { nodes, val, .. } => (nodes.len() + 1, !matches!(val, Val::None)),
                    Item::X { conns, .. } => (conns.len() + 1, false),
                };
                for w in 1..=fields.min(words.len() - 1) {
                    // a diode has no value
                    if w == fields && !plain && matches!(it, Item::El { .. }) {
                        continue;
                    }
                    for twice in [false, true] {
                        let mut v = words.clone();
                        if twice {
                            // what a value is followed by is not looked at
                            if !matches!(it, Item::X { .. }) {
                                continue;
                            }
                            v.insert(w, words[w]);
                        } else {
                            // SIN( 1 2 3 ) without its first word
                            if w == fields && matches!(it, Item::El { val: Val::Sin(_) | Val::Pwl(_), .. }) {
                                continue;
                            }
                            v.remove(w);
                        }
                        let broken = v.join(" ");
                        let mut d = sh.deck.clone();
                        let mut text = d.text();
                        shipped::items_mut(&mut d, sc).remove(k);
                        // in place of the card; cards that are written twice don't matter
                        text = text.replacen(&format!("\n{}\n", line), &format!("\n{}\n", broken), 1);
                        cx.case(&|| format!("{}: {}\n{}", sh.name, broken, text), &mut |c| must_fail(&text, None, "a word missing or too many", c));
                    }
                }
            }
        }
    }
}

fn run(cx: &mut Cx) {
    node_characters(cx);
    shipped_decks(cx);
    not_utf8(cx);
    long_decks(cx);
    let tail_lines: [&[&str]; 2] = [ZZ, &[]];
    for h in HOSTS {
        let lib_text = if h.lib.is_empty() { None } else { Some(h.lib.join("\n") + "\n") };
        let deck_ctx = contexts(h.lines, false);
        let lib_ctx = contexts(h.lib, true);

        // (lines, context, what, needs zz)
        let mut bad: Vec<(Vec<String>, Ctx, &'static str, bool)> = vec![];
        for (l, w) in bad_elements() {
            bad.push((vec![l], Ctx::Top, w, false));
        }
        for (l, w) in bad_instances() {
            bad.push((vec![l], Ctx::Top, w, true));
        }
        for (l, w) in bad_controls() {
            bad.push((vec![l], Ctx::Control, w, false));
        }

        for cli in [false, true] {
            cx.family(&format!("{} deck, malformed lines at every position{}", h.name, if cli { ", the binary" } else { "" }));
            for (bi, (ls, ctx, what, zz)) in bad.iter().enumerate() {
                for (in_lib, ctxs) in [(false, &deck_ctx), (true, &lib_ctx)] {
                    for (at, here) in ctxs.iter().enumerate() {
                        let Some(here) = here else { continue };
                        let fits = match ctx {
                            Ctx::Control => *here == Ctx::Control,
                            _ => *here != Ctx::Control,
                        };
                        // `.endc` out of place ends the block in a control block
                        if !fits {
                            continue;
                        }
                        if cli && !cx.thorough() && at % 5 != bi % 5 {
                            continue;
                        }
                        let e: Vec<&str> = ls.iter().map(|s| s.as_str()).collect();
                        let tail = tail_lines[if *zz { 0 } else { 1 }];
                        let (deck, lib) = if in_lib {
                            (with(&[&["title"], h.lines].concat(), 0, &[], tail), Some(with(h.lib, at, &e, &[])))
                        } else {
                            (with(&[&["title"], h.lines].concat(), at + 1, &e, tail), lib_text.clone())
                        };
                        cx.case(&|| format!("{}: {:?}\n{}{}", what, e, deck, lib.as_ref().map_or(String::new(), |l| format!("--- l.lib\n{}", l))), &mut |c| {
                            if cli {
                                must_fail_cli(&deck, lib.as_deref(), what, c)
                            } else {
                                must_fail(&deck, lib.as_deref(), what, c)
                            }
                        });
                    }
                }
            }
        }

        for cli in [false, true] {
            cx.family(&format!("{} deck, damaged definitions and libraries{}", h.name, if cli { ", the binary" } else { "" }));
            let mut multi: Vec<(Vec<String>, &'static str)> = bad_definitions();
            multi.extend(bad_libs().into_iter().map(|(l, w)| (vec![l], w)));
            for (bi, (ls, what)) in multi.iter().enumerate() {
                for (at, here) in deck_ctx.iter().enumerate() {
                    if *here != Some(Ctx::Top) {
                        continue;
                    }
                    if cli && !cx.thorough() && at % 3 != bi % 3 {
                        continue;
                    }
                    let e: Vec<&str> = ls.iter().map(|s| s.as_str()).collect();
                    let deck = with(&[&["title"], h.lines].concat(), at + 1, &e, &[]);
                    cx.case(&|| format!("{}: {:?}\n{}", what, e, deck), &mut |c| {
                        if cli {
                            must_fail_cli(&deck, lib_text.as_deref(), what, c)
                        } else {
                            must_fail(&deck, lib_text.as_deref(), what, c)
                        }
                    });
                }
            }
        }

        cx.family(&format!("{} deck, every line of it missing", h.name));
        for k in 0..h.lines.len() {
            // only these leave something unbalanced or undefined
            let w: Vec<&str> = h.lines[k].split_whitespace().collect();
            let breaks = [".subckt", ".ends", ".control", ".endc"].contains(&w[0]);
            if !breaks {
                continue;
            }
            let mut l = vec!["title"];
            l.extend(h.lines.iter().enumerate().filter(|x| x.0 != k).map(|x| *x.1));
            let deck = with(&l, 0, &[], &[]);
            cx.case(&|| deck.clone(), &mut |c| must_fail(&deck, lib_text.as_deref(), "unbalanced", c));
            cx.case(&|| deck.clone(), &mut |c| must_fail_cli(&deck, lib_text.as_deref(), "unbalanced", c));
        }

        cx.family(&format!("{} deck, a control block without an end", h.name));
        for block in [&[".control"][..], &[".control", "op"], &[".control", "tran 1u 20u"], &[".control", "tran 1u 20u", "R8 a b 1k", "* .endc"], &[".control", "option RMAX = 2", "", ".control"], &[".control", ".end"], &[".control", "* x", "; .endc", ".Endc"]] {
            for at in 1..=h.lines.len() + 1 {
                let deck = with(&[&["title"], h.lines].concat(), at, block, &[]);
                cx.case(&|| deck.clone(), &mut |c| must_fail(&deck, lib_text.as_deref(), ".control without .endc", c));
                cx.case(&|| deck.clone(), &mut |c| must_fail_cli(&deck, lib_text.as_deref(), ".control without .endc", c));
            }
        }

        // valid lines
        let good: Vec<&str> = GOOD.to_vec();
        for (in_lib, ctxs) in [(false, &deck_ctx), (true, &lib_ctx)] {
            cx.family(&format!("{} deck, pairs of valid lines at every position{}", h.name, if in_lib { " of the library" } else { "" }));
            for (at, here) in ctxs.iter().enumerate() {
                let Some(here) = here else { continue };
                let al = if *here == Ctx::Control { GOOD_CONTROL.to_vec() } else { good.clone() };
                tuples(2, al.len(), &mut |ix| {
                    // instances have names of their own
                    let second = al[ix[1]].replace("X9z", "X8z");
                    let e = [al[ix[0]], second.as_str()];
                    let (deck, lib) = if in_lib {
                        (with(&[&["title"], h.lines].concat(), 0, &[], ZZ), Some(with(h.lib, at, &e, &[])))
                    } else {
                        (with(&[&["title"], h.lines].concat(), at + 1, &e, ZZ), lib_text.clone())
                    };
                    cx.case(&|| format!("{}{}", deck, lib.clone().unwrap_or_default()), &mut |c| must_pass(&deck, lib.as_deref(), c));
                });
            }
        }

        cx.family(&format!("{} deck, valid lines, the binary", h.name));
        for at in 0..=h.lines.len() {
            let Some(here) = deck_ctx[at] else { continue };
            for g in if here == Ctx::Control { GOOD_CONTROL } else { GOOD } {
                if here == Ctx::Control && g.starts_with("op") {
                    continue;
                }
                let deck = with(&[&["title"], h.lines].concat(), at + 1, &[*g], ZZ);
                cx.case(&|| deck.clone(), &mut |c| must_pass_cli(&deck, lib_text.as_deref(), c));
            }
        }

        // errors don't hide behind valid lines, or behind other errors
        cx.family(&format!("{} deck, a malformed line and a valid or malformed one after it", h.name));
        let some: Vec<&(Vec<String>, Ctx, &'static str, bool)> = bad.iter().filter(|b| b.1 == Ctx::Top).step_by(cx.by(5, 1)).collect();
        for b in &some {
            for g in &good {
                let e = [b.0[0].as_str(), *g];
                for at in [1, h.lines.len() + 1] {
                    let deck = with(&[&["title"], h.lines].concat(), at, &e, ZZ);
                    cx.case(&|| deck.clone(), &mut |c| must_fail(&deck, lib_text.as_deref(), b.2, c));
                }
            }
        }
    }
}
