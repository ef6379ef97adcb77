//! C07 what isn't an element and what is
use super::c08::check_text;
use super::util::*;
use crate::harness::*;
use crate::hier::s;
use crate::net::*;
use crate::shipped;

pub fn def() -> PropDef {
    PropDef {
        id: "C07",
        run,
        rule: "every sequence of up to 3 (thorough 4) lines over an alphabet of element cards of every kind, comments, blanks and lines with trailing comments, after every kind of title line, with LF or CRLF ends and with or without a final newline; every card in every spacing; the same lines inside a subcircuit; element names, node names and values per kind; and the decks that come with the simulator (of a kind the property is about) and those one edit away from them",
        hang_s: 20,
    }
}

/// a line and the elements it stands for
type Line = (&'static str, Option<(char, &'static [&'static str], &'static [f64])>);

const LINES: &[Line] = &[
    ("R1 a b 1k", Some(('R', &["a", "b"], &[1e3]))),
    ("Rload b 0 22", Some(('R', &["b", "0"], &[22.0]))),
    ("C1 b a 10u", Some(('C', &["b", "a"], &[1e-5]))),
    ("Dx a b", Some(('D', &["a", "b"], &[]))),
    ("D2 b gnd", Some(('D', &["b", "0"], &[]))),
    ("V1 a 0 5", Some(('V', &["a", "0"], &[5.0]))),
    ("Vin GND b -3.3", Some(('V', &["0", "b"], &[-3.3]))),
    ("I1 0 a 2m", Some(('I', &["0", "a"], &[2e-3]))),
    ("V2 b a SIN(1 2 50)", Some(('v', &["b", "a"], &[1.0, 2.0, 50.0]))),
    ("I2 a 0 SIN(0 1m 1k)", Some(('i', &["a", "0"], &[0.0, 1e-3, 1e3]))),
    ("V3 c 0 PWL(0, 0, 1, 5) td=2 r=0", Some(('w', &["c", "0"], &[2.0, 1.0, 0.0, 0.0, 1.0, 5.0]))),
    ("E1 c 0 a b 10", Some(('E', &["c", "0", "a", "b"], &[10.0]))),
    ("G1 a b c 0 0.5", Some(('G', &["a", "b", "c", "0"], &[0.5]))),
    ("", None),
    ("   \t ", None),
    ("* R9 a 0 1", None),
    ("*R9 a 0 1", None),
    ("  * V9 a 0 1", None),
    ("; R9 a 0 1", None),
    (";R9 a 0 1", None),
    ("\t;V9 a b 1", None),
    ("*", None),
    (";", None),
    ("*.subckt foo a b", None),
    ("* .control", None),
    ("R2 a c 3 ; R9 a 0 1", Some(('R', &["a", "c"], &[3.0]))),
    ("R3 a c 4; 5k", Some(('R', &["a", "c"], &[4.0]))),
    ("R4 a c 5;R9 a 0 1", Some(('R', &["a", "c"], &[5.0]))),
    ("V4 a c 6 ;; ; x", Some(('V', &["a", "c"], &[6.0]))),
    ("\tC2\ta \t c   7n\t", Some(('C', &["a", "c"], &[7e-9]))),
    ("   I4   a   c   8   ", Some(('I', &["a", "c"], &[8.0]))),
    ("Dd a c ; 1", Some(('D', &["a", "c"], &[]))),
    ("V5 c b SIN( 1 2  3 ) ; SIN(4 5 6)", Some(('v', &["c", "b"], &[1.0, 2.0, 3.0]))),
    ("V6 c b PWL( 0 ,1, 2, 3 ) ; td=4", Some(('w', &["c", "b"], &[0.0, 0.0, 0.0, 1.0, 2.0, 3.0]))),
];

const TITLES: &[&str] = &["title", "", "R9 a 0 1", "* comment", "V9 a 0 5", ".subckt x a b", ".control", "; x", ".ends", "   ", "Q1 nonsense", "X1 a b nothing"];

fn expect(ix: &[usize]) -> Vec<String> {
    let mut v: Vec<String> = ix.iter().filter_map(|k| LINES[*k].1).map(|(k, n, v)| text_of(k, n, v)).collect();
    v.sort();
    v
}

fn check(text: &str, want: &[String], c: &mut Case) -> Result<(), String> {
    let (ckt, _) = read_deck(text)?;
    c.validated();
    let got = element_texts(&ckt)?;
    c.steps(got.len());
    c.saw(&got);
    if got != want {
        return Err(format!("the circuit is {:?}\nexpected {:?}", got, want));
    }
    Ok(())
}

fn run(cx: &mut Cx) {
    for len in 0..=cx.deep(3, 4, 5) {
        cx.family(&format!("all sequences of {} lines", len));
        tuples(len, LINES.len(), &mut |ix| {
            let k = ix.iter().fold(7usize, |a, b| a * 31 + b);
            let nl = if k % 3 == 0 { "\r\n" } else { "\n" };
            let title = TITLES[k % TITLES.len()];
            let mut text = title.to_string();
            for i in ix {
                text += nl;
                text += LINES[*i].0;
            }
            if k % 5 != 0 {
                text += nl;
            }
            cx.case(&|| format!("{:?}", text), &mut |c| check(&text, &expect(ix), c));
        });
    }

    cx.family("every title before every pair of lines, every line end");
    for t in TITLES {
        tuples(2, LINES.len(), &mut |ix| {
            for nl in ["\n", "\r\n"] {
                for fin in [false, true] {
                    let mut text = format!("{}{}{}{}{}", t, nl, LINES[ix[0]].0, nl, LINES[ix[1]].0);
                    if fin {
                        text += nl;
                    }
                    cx.case(&|| format!("{:?}", text), &mut |c| check(&text, &expect(ix), c));
                }
            }
        });
    }

    cx.family("every line in a subcircuit and around control blocks");
    tuples(2, LINES.len(), &mut |ix| {
        for form in 0..4 {
            let (a, b) = (LINES[ix[0]].0, LINES[ix[1]].0);
            let (text, want) = match form {
                0 => (format!("t\n{}\n.control\n* op\n; tran 1 2\n\nop ; tran 1 2\n.endc\n{}\n", a, b), expect(ix)),
                1 => (format!("t\n{}\n.control ; x\nop\n.endc; y\n{}\n", a, b), expect(ix)),
                // a and b inside, ports a, b and c wired through
                2 => (format!("t\nX1 a b c sub ; X2 a b c sub\n.subckt sub a b c ; d\n{}\n{}\n.ends ; sub\n", a, b), expect(ix)),
                // before and after a definition which isn't used
                _ => (format!("t\n{}\n.subckt sub p q\nR1 p q 5\n.ends\n{}\n", a, b), expect(ix)),
            };
            cx.case(&|| format!("{:?}", text), &mut |c| check(&text, &want, c));
        }
    });

    cx.family("every spacing of every card");
    for l in LINES {
        let Some((k, n, v)) = l.1 else { continue };
        let code = l.0.split(';').next().unwrap_or("");
        let bits: Vec<&str> = code.split_whitespace().collect();
        let seps = [" ", "\t", "  ", " \t ", "          "];
        tuples(bits.len().min(5), seps.len(), &mut |s| {
            let mut line = seps[s[0]].to_string();
            if s[0] == 0 {
                line.clear();
            }
            for (i, b) in bits.iter().enumerate() {
                line += b;
                line += seps[s[i.min(s.len() - 1)]];
            }
            let text = format!("t\n{}\n", line);
            let want = vec![text_of(k, n, v)];
            cx.case(&|| format!("{:?}", text), &mut |c| check(&text, &want, c));
        });
    }

    // (as in the repository's ngspice/test_reader.spi)
    cx.family("cards with the same name");
    for id in ["", "1", "x"] {
        for kinds in [["R", "R", "R"], ["C", "C", "C"], ["E", "E", "E"], ["G", "G", "G"], ["V", "V", "V"], ["I", "I", "I"], ["D", "D", "D"], ["R", "C", "R"], ["R", "E", "R"], ["C", "G", "C"], ["G", "E", "G"], ["V", "R", "V"]] {
            tuples(3, 3, &mut |vs| {
                for form in 0..4 {
                    let mut cards = vec![];
                    let mut want = vec![];
                    for (n, (k, v)) in kinds.iter().zip(vs).enumerate() {
                        let (a, b) = [("a", "b"), ("b", "c"), ("c", "a")][n];
                        let four = *k == "E" || *k == "G";
                        let val = (*v + 2) as f64;
                        cards.push(format!("{}{} {} {}{}{}", k, id, a, b, if four { " a c" } else { "" }, if *k == "D" { String::new() } else { format!(" {}", val) }));
                        let ns: Vec<&str> = if four { vec![a, b, "a", "c"] } else { vec![a, b] };
                        let vals = if *k == "D" { vec![] } else { vec![val] };
                        want.push(text_of(k.chars().next().unwrap_or('?'), &ns, &vals));
                    }
                    let inside = format!(".subckt sub a b c\n{}\n.ends\n", cards.join("\n"));
                    let text = match form {
                        0 => format!("t\n{}\n", cards.join("\n")),
                        1 => format!("t\nX1 a b c sub\n{}", inside),
                        2 => format!("t\n{}\nX1 a b c sub\n{}", cards.join("\n"), inside),
                        _ => format!("t\nX1 a b c sub\nX2 a b c sub\n{}{}\n", inside, cards.join("\n")),
                    };
                    let mut all = want.clone();
                    for _ in 1..[1, 1, 2, 3][form] {
                        all.extend(want.clone());
                    }
                    all.sort();
                    cx.case(&|| format!("{:?}", text), &mut |c| check(&text, &all, c));
                }
            });
        }
    }

    cx.family("long lines, comments and blanks");
    for n in (0..=cx.deep(300, 1200, 8000)).step_by(4).chain([511, 512, 513, 1023, 1024, 1025, 4096, 65536]) {
        for l in LINES {
            // in the blanks, in front, at the end, in a comment
            let (code, note) = match l.0.split_once(';') {
                Some((c, n)) => (c, format!(";{}", n)),
                None => (l.0, String::new()),
            };
            for form in 0..4 {
                let pad = " ".repeat(n + 1);
                let line = match form {
                    0 => format!("{}{}", pad, l.0),
                    1 => code.split_whitespace().collect::<Vec<_>>().join(&pad) + &note,
                    2 => format!("{}{};{}", code, pad, "R9 a 0 1 ".repeat(n / 9)),
                    _ => format!("{}{}", l.0, pad),
                };
                if form == 1 && code.trim_start().starts_with('*') {
                    continue;
                }
                let text = format!("t\nR77 a b 7\n{}\nR78 b 0 8\n", line);
                let mut want = vec![text_of('R', &["a", "b"], &[7.0]), text_of('R', &["b", "0"], &[8.0])];
                want.extend(l.1.map(|(k, n, v)| text_of(k, n, v)));
                want.sort();
                cx.case(&|| format!("{} blanks or letters: {:?}", n, line), &mut |c| check(&text, &want, c));
            }
        }
    }
    cx.family("every byte and pair of bytes from 0x80 in titles and comments");
    for a in 0..=255u8 {
        for b in if a < 0x80 { 0..=0 } else { 0..=255u8 } {
            if a == b'\n' || b == b'\n' || a == b'\r' {
                continue;
            }
            let p = format!("{}{}", byte(a), if a < 0x80 { String::new() } else { byte(b).to_string() });
            let form = (a as usize + b as usize) % 5;
            let line = match form {
                0 => format!("*{}R9 a b 1", p),
                1 => format!("R8 a b 5 ;{}R9 a b 1", p),
                2 => format!(";{} R9 a b 1", p),
                3 => format!("  * R9{} a b 1", p),
                _ => format!("R8 a b 5;R9 a b 1 {}", p),
            };
            let text = format!("{} R9 a b 1\nR7 a b 7\n{}\nR6 b 0 8\n*{}", p, line, p);
            let mut want = vec![text_of('R', &["a", "b"], &[7.0]), text_of('R', &["b", "0"], &[8.0])];
            if form == 1 || form == 4 {
                want.push(text_of('R', &["a", "b"], &[5.0]));
            }
            want.sort();
            cx.case(&|| format!("{:?}", raw(&text)), &mut |c| check(&text, &want, c));
        }
    }
    cx.family("decks of any number of lines");
    for n in (0..=cx.deep(200, 600, 3000)).chain([1000, 1023, 1024, 1025, 5000]) {
        for start in 0..3 {
            let ix: Vec<usize> = (0..n).map(|k| (k * 5 + start * 11) % LINES.len()).collect();
            let mut text = "title\n".to_string();
            for i in &ix {
                text += LINES[*i].0;
                text += "\n";
            }
            cx.case(&|| format!("{} lines, from {}", n, start), &mut |c| check(&text, &expect(&ix), c));
        }
    }

    cx.family("every character in an identifier, for every kind");
    for ch in (33u8..127).map(char::from).filter(|c| *c != ';').chain(['\u{e9}', '\u{3a9}']) {
        for id in [format!("{}", ch), format!("1{}", ch), format!("{}1", ch), format!("a{}b", ch), format!("{}{}", ch, ch)] {
            for kind in ["R", "C", "D", "V", "v", "w", "I", "i", "E", "G", "X"] {
                let card = match kind {
                    "R" => format!("R{} a b 2", id),
                    "C" => format!("C{} a b 2", id),
                    "D" => format!("D{} a b", id),
                    "V" => format!("V{} a b 2", id),
                    "v" => format!("V{} a b SIN(1 2 3)", id),
                    "w" => format!("V{} a b PWL(0, 1, 2, 3)", id),
                    "I" => format!("I{} a b 2", id),
                    "i" => format!("I{} a b SIN(1 2 3)", id),
                    "E" => format!("E{} a b c 0 2", id),
                    "G" => format!("G{} a b c 0 2", id),
                    _ => format!("X{} a b sub", id),
                };
                let one = match kind {
                    "D" => text_of('D', &["a", "b"], &[]),
                    "v" => text_of('v', &["a", "b"], &[1.0, 2.0, 3.0]),
                    "i" => text_of('i', &["a", "b"], &[1.0, 2.0, 3.0]),
                    "w" => text_of('w', &["a", "b"], &[0.0, 0.0, 0.0, 1.0, 2.0, 3.0]),
                    "E" | "G" => text_of(kind.chars().next().unwrap_or('?'), &["a", "b", "c", "0"], &[2.0]),
                    "X" => text_of('R', &["a", "b"], &[9.0]),
                    k => text_of(k.chars().next().unwrap_or('?'), &["a", "b"], &[2.0]),
                };
                // in the deck, and in a subcircuit
                for form in 0..2 {
                    let text = if form == 0 {
                        format!("t\n{}\n.subckt sub p q\nR1 p q 9\n.ends\nR5 c 0 1\n", card)
                    } else {
                        format!("t\nXtop a b c blk\nR5 c 0 1\n.subckt sub p q\nR1 p q 9\n.ends\n.subckt blk a b c\n{}\n.ends\n", card)
                    };
                    let mut want = vec![one.clone(), text_of('R', &["c", "0"], &[1.0])];
                    want.sort();
                    cx.case(&|| format!("{:?}", text), &mut |c| check(&text, &want, c));
                }
            }
        }
    }

    cx.family("the decks that come with the simulator: every line in other words, and something else around it");
    for sh in shipped::all() {
        let plain = sh.plain();
        let lines: Vec<&str> = plain.lines().collect();
        // several blanks where there is one, blanks in front and behind, comments
        let reword = |l: &str, form: usize| -> String {
            let code = l.split(';').next().unwrap_or("");
            let note = &l[code.len()..];
            let dot_or_nothing = code.trim().is_empty() || code.trim().starts_with('*');
            let gaps = |g: &str| if dot_or_nothing { s(l) } else { code.split_whitespace().collect::<Vec<_>>().join(g) + note };
            match form {
                0 => gaps("   "),
                1 => gaps("\t"),
                2 => format!(" \t{}", l),
                3 => format!("{}  \t ", l),
                4 if !dot_or_nothing => format!("{} ; R9 a b 1", l),
                5 if !dot_or_nothing => format!("{};{}", l, l),
                6 => format!("{}\r", l),
                7 => format!("{}\n", l),
                8 => format!("{}\n*{}", l, l),
                9 => format!("; {}\n{}", l, l),
                10 => format!("  * .control\n{}", l),
                11 => format!("{}\n;.ends", l),
                12 => format!("\t\n{}\n*+ 5", l),
                13 if !dot_or_nothing => format!("{}; {{ \u{e9}", l),
                _ => s(l),
            }
        };
        for form in 0..14 {
            let mut all: Vec<String> = lines.iter().map(|l| reword(l, form)).collect();
            all[0] = s("title");
            let text = all.join("\n") + "\n";
            cx.case(&|| format!("{}\n{}", sh.name, text), &mut |c| check_text(&text, &sh.deck, false, c));
            for k in 1..lines.len() {
                let mut some: Vec<String> = lines.iter().map(|l| s(l)).collect();
                some[0] = s(lines[k]);
                some[k] = reword(lines[k], form);
                let text = some.join("\n");
                cx.case(&|| format!("{}\n{}", sh.name, text), &mut |c| check_text(&text, &sh.deck, false, c));
            }
        }
    }

    cx.family("every identifier and node name per kind");
    let ids = ["", "1", "x", "load", "RRR", "C", "_2", "a1b2", "99999", "V", "s", "ubckt", "1*", "*1", "a*b", "-1", "+", ".1", "1.5", "/2", "<0>", "#", "@", "\u{e9}"];
    let nodes = ["a", "1", "n_1", "Z9", "_x", "000", "gnd2", "out", "R1", "X", "VDD", "123456789", "a_9_Z", "n0"];
    for kind in ["R", "C", "D", "V", "I", "E", "G"] {
        for id in ids {
            for (k, a) in nodes.iter().enumerate() {
                for (l, b) in nodes.iter().enumerate() {
                    if l == k {
                        continue;
                    }
                    let four = kind == "E" || kind == "G";
                    let ctl = if four { " ctl 0" } else { "" };
                    let val = if kind == "D" { "" } else { " 2.5" };
                    let text = format!("t\n{}{} {} {}{}{}\n", kind, id, a, b, ctl, val);
                    let ns: Vec<&str> = if four { vec![a, b, "ctl", "0"] } else { vec![a, b] };
                    let vs: Vec<f64> = if kind == "D" { vec![] } else { vec![2.5] };
                    let want = vec![text_of(kind.chars().next().unwrap_or('?'), &ns, &vs)];
                    cx.case(&|| format!("{:?}", text), &mut |c| check(&text, &want, c));
                }
            }
        }
    }
}
