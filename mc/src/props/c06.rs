//! C06 numbers and bracket expressions
use super::util::*;
use crate::harness::*;
use crate::hier;
use crate::net::*;
#[cfg(not(feature = "no_bracket"))]
use tiny_spice::bracket_expression::*;

pub fn def() -> PropDef {
    PropDef {
        id: "C06",
        run,
        rule: "every string of up to 6 (thorough 7) characters over the characters numbers are made of plus junk, read as a value and compared with an independent reading of the number grammar; every string of up to 6 (thorough 7) characters over brackets, letters, digits, blanks and junk read as an expression; every literal of a list in every place a deck can have a number",
        hang_s: 60,
    }
}

const SCALES: [(char, f64); 5] = [('k', 1e3), ('m', 1e-3), ('u', 1e-6), ('n', 1e-9), ('p', 1e-12)];

#[derive(Debug, PartialEq)]
enum Want {
    Is(f64),
    No,
    /// begins with a number, what follows isn't specified: nothing, or one of these
    Open(Vec<f64>),
}

/// digits with a point and an exponent, evaluated without the standard library's parser
fn dec(neg: bool, int: &str, frac: &str, exp: i32) -> f64 {
    let mut m = 0.0f64;
    for c in int.chars().chain(frac.chars()) {
        m = m * 10.0 + f64::from(c.to_digit(10).unwrap_or(0));
    }
    let e = exp - frac.len() as i32;
    let v = if e >= 0 { m * 10f64.powi(e) } else { m / 10f64.powi(-e) };
    if neg {
        -v
    } else {
        v
    }
}

fn want(text: &str) -> Want {
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    let neg = b.first() == Some(&'-');
    if neg || b.first() == Some(&'+') {
        i += 1;
    }
    let run = |mut i: usize| {
        let s = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        (b[s..i].iter().collect::<String>(), i)
    };
    let (int, j) = run(i);
    i = j;
    let mut frac = String::new();
    let mut open = vec![];
    if int.is_empty() {
        // a bare fraction: nobody says if that's a number
        if b.get(i) == Some(&'.') {
            let (f, _) = run(i + 1);
            if !f.is_empty() {
                let full: String = b[..i].iter().chain(&['0']).chain(&b[i..]).collect();
                return match want(&full) {
                    Want::Is(v) => Want::Open(vec![v]),
                    w => w,
                };
            }
        }
        return Want::No;
    }
    open.push(dec(neg, &int, "", 0));
    if b.get(i) == Some(&'.') {
        let (f, j) = run(i + 1);
        frac = f;
        i = j;
        open.push(dec(neg, &int, &frac, 0));
    }
    let v = dec(neg, &int, &frac, 0);
    let letters = |i: usize| b[i..].iter().all(|c| c.is_ascii_alphabetic());
    if i == b.len() {
        return Want::Is(v);
    }
    if b[i] == 'e' {
        let mut k = i + 1;
        let eneg = b.get(k) == Some(&'-');
        if eneg || b.get(k) == Some(&'+') {
            k += 1;
        }
        let (ex, j) = run(k);
        if ex.is_empty() {
            return Want::Open(open);
        }
        let e: i32 = ex.parse().unwrap_or(9999);
        let e = if eneg { -e } else { e };
        if e.abs() > 290 {
            return Want::Open(vec![dec(neg, &int, &frac, e), 0.0, f64::INFINITY, f64::NEG_INFINITY]);
        }
        let w = dec(neg, &int, &frac, e);
        if j == b.len() || (letters(j) && !SCALES.iter().any(|s| s.0 == b[j])) {
            return Want::Is(w);
        }
        open.push(w);
        open.extend(SCALES.iter().filter(|s| s.0 == b[j]).map(|s| w * s.1));
        return Want::Open(open);
    }
    if let Some(s) = SCALES.iter().find(|s| s.0 == b[i]) {
        if letters(i + 1) {
            return Want::Is(v * s.1);
        }
        open.push(v * s.1);
        return Want::Open(open);
    }
    if letters(i) {
        return Want::Is(v);
    }
    Want::Open(open)
}

#[cfg(not(feature = "no_bracket"))]
fn same(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-14 * a.abs().max(b.abs())
}

#[cfg(not(feature = "no_bracket"))]
fn check_value(t: &str) -> Result<u8, String> {
    let got = match guard(|| extract_value(t)) {
        Ok(g) => g,
        Err(m) => return Err(format!("{:?} makes the number reader panic: {}", t, m)),
    };
    match (want(t), got) {
        (Want::Is(w), Some(g)) if same(w, g) => Ok(0),
        (Want::Is(w), g) => Err(format!("{:?} is {:e}, read as {:?}", t, w, g)),
        (Want::No, None) => Ok(1),
        (Want::No, g) => Err(format!("{:?} is not a number, read as {:?}", t, g)),
        (Want::Open(_), None) => Ok(2),
        (Want::Open(w), Some(g)) if w.iter().any(|w| same(*w, g)) => Ok(3),
        (Want::Open(w), Some(g)) => Err(format!("{:?} begins with a number, but is read as {:e}, not any of {:?}", t, g, w)),
    }
}

#[cfg(not(feature = "no_bracket"))]
fn check_expr(t: &str) -> Result<u8, String> {
    let got = match guard(|| extract_expression(t)) {
        Ok(g) => g,
        Err(m) => return Err(format!("{:?} makes the expression reader panic: {}", t, m)),
    };
    if !t.starts_with('{') {
        return match (want(t), got) {
            (Want::Is(w), Some(Expression::Literal(g))) if same(w, g) => Ok(0),
            (Want::Is(w), g) => Err(format!("{:?} is {:e}, read as {:?}", t, w, g)),
            (Want::No, None) | (Want::Open(_), None) => Ok(1),
            (Want::Open(w), Some(Expression::Literal(g))) if w.iter().any(|w| same(*w, g)) => Ok(3),
            (_, g) => Err(format!("{:?} is read as {:?}", t, g)),
        };
    }
    let inner = t.strip_prefix('{').and_then(|t| t.strip_suffix('}'));
    // a bare "{" has no closing bracket
    let inner = if t.len() < 2 { None } else { inner };
    let (ident, sure) = match inner {
        Some(i) => {
            let tr = i.trim();
            let ok = !tr.is_empty() && tr.chars().all(|c| c.is_ascii_alphanumeric());
            let clean = ok && tr == i && tr.starts_with(|c: char| c.is_ascii_alphabetic());
            (if ok { Some(tr.to_string()) } else { None }, clean)
        }
        None => (None, false),
    };
    match (ident, got) {
        (Some(i), Some(Expression::Identifier(g))) if i == g => Ok(4),
        (Some(_), None) if !sure => Ok(5),
        (Some(i), g) => Err(format!("{:?} is a reference to {:?}, read as {:?}", t, i, g)),
        (None, None) => Ok(6),
        (None, Some(g)) => Err(format!("{:?} is not a reference to anything, read as {:?}", t, g)),
    }
}

/// All strings over `al` of up to `max` characters, grouped by their first `max-3`
fn strings(cx: &mut Cx, al: &[char], max: usize, f: fn(&str) -> Result<u8, String>) {
    let head = max.saturating_sub(3);
    let tail = max - head;
    for len in 0..=head {
        tuples(len, al.len(), &mut |h| {
            let p: String = h.iter().map(|k| al[*k]).collect();
            let full = len == head;
            cx.case(&|| if full { format!("{:?} and up to {} more characters", p, tail) } else { format!("{:?}", p) }, &mut |c| {
                c.validated();
                c.saw(&f(&p)?);
                c.step();
                if full {
                    for l in 1..=tail {
                        let mut res = Ok(());
                        let mut s = p.clone();
                        tuples(l, al.len(), &mut |t| {
                            if res.is_ok() {
                                s.truncate(p.len());
                                s.extend(t.iter().map(|k| al[*k]));
                                match f(&s) {
                                    Ok(k) => c.saw(&k),
                                    Err(e) => res = Err(e),
                                }
                                c.step();
                            }
                        });
                        res?;
                    }
                }
                Ok(())
            });
        });
    }
}

/// The functions which read numbers and expressions
#[cfg(not(feature = "no_bracket"))]
fn run_readers(cx: &mut Cx) {
    cx.family("values: all short strings");
    let al: Vec<char> = "017.+-ekmup V".chars().collect();
    strings(cx, &al, cx.by(7, 8), check_value);
    cx.family("values: all short strings with other characters");
    let al: Vec<char> = "29.-EnfxM_{\u{e9}".chars().collect();
    strings(cx, &al, cx.by(6, 7), check_value);

    cx.family("expressions: all short strings");
    let al: Vec<char> = "{}aZ1 _-.k".chars().collect();
    strings(cx, &al, cx.by(7, 8), check_expr);
    let al: Vec<char> = "{}b9\u{e9}\t+{*".chars().collect();
    strings(cx, &al, cx.by(7, 8), check_expr);

    cx.family("long numbers and names");
    for n in [10usize, 50, 100, 300, 1000, 5000] {
        for t in [
            "9".repeat(n), format!("1.{}", "0".repeat(n)), format!("1.{}5k", "0".repeat(n)), format!("{}k", "0".repeat(n)),
            "k".repeat(n), "-".repeat(n), "e".repeat(n), format!("1e{}", "0".repeat(n)), format!("1e{}3", "0".repeat(n)),
        ] {
            cx.case(&|| t.clone(), &mut |c| {
                c.validated();
                guard(|| extract_value(&t)).map_err(|m| format!("panic: {}", m))?;
                if n <= 300 {
                    c.saw(&check_value_loose(&t)?);
                }
                Ok(())
            });
        }
        for t in [format!("{{{}}}", "a".repeat(n)), "{".repeat(n), "}".repeat(n), format!("{{{}", "a".repeat(n)), format!("{{{}}}", " ".repeat(n))] {
            cx.case(&|| t.clone(), &mut |c| {
                c.validated();
                c.saw(&check_expr(&t)?);
                Ok(())
            });
        }
    }

    cx.family("values: mantissa x exponent x suffix x unit");
    for sign in ["", "+", "-"] {
        for m in ["0", "1", "42", "4.7", "0.001", "1000000", "3.14159265358979", "007", "9.", "12345.678"] {
            for e in ["", "e0", "e1", "e-3", "e+6", "e12", "e-15", "e03", "e15", "e-30", "e60", "e-99", "e100", "e-290", "e-305", "e-308", "e-310", "e-314", "e-320", "e-323", "e-340", "e290", "e300"] {
                for u in ["", "k", "m", "u", "n", "p", "V", "A", "Hz", "Ohm", "s", "F", "kOhm", "mA", "uF", "ns", "pF", "kV", "kHz", "mm", "kk"] {
                    let t = format!("{}{}{}{}", sign, m, e, u);
                    cx.case(&|| t.clone(), &mut |c| {
                        c.validated();
                        c.step();
                        c.saw(&t);
                        check_value(&t)?;
                        check_expr(&t)?;
                        Ok(())
                    });
                }
            }
        }
    }

    cx.family("values: every digit in every position");
    for d in '0'..='9' {
        for (a, b) in [("", ""), ("1", ""), ("", "1"), ("1", "1")] {
            // a digit, alone or with neighbours, in each part of a number
            let x = format!("{}{}{}", a, d, b);
            for sign in ["", "+", "-"] {
                for t in [x.clone(), format!("{}.", x), format!("2.{}", x), format!("{}.5", x)] {
                    for u in ["", "k", "m", "u", "n", "p", "V", "e1", "e-2"] {
                        let t = format!("{}{}{}", sign, t, u);
                        cx.case(&|| t.clone(), &mut |c| {
                            c.validated();
                            c.step();
                            c.saw(&t);
                            c.saw(&check_value(&t)?);
                            Ok(())
                        });
                    }
                }
                for m in ["3", "2.5", "-7"] {
                    let t = format!("{}e{}{}", m, sign, x);
                    cx.case(&|| t.clone(), &mut |c| {
                        c.validated();
                        c.step();
                        c.saw(&t);
                        c.saw(&check_value(&t)?);
                        Ok(())
                    });
                }
            }
        }
    }
    for m in ["1", "-2.5", "0.001", "9.999999999", "123456789"] {
        for e in -290i32..=290 {
            for form in 0..3 {
                let t = match form {
                    0 => format!("{}e{}", m, e),
                    1 => format!("{}e{:+}", m, e),
                    _ => format!("{}e{}{:04}", m, if e < 0 { "-" } else { "" }, e.abs()),
                };
                cx.case(&|| t.clone(), &mut |c| {
                    c.validated();
                    c.step();
                    c.saw(&t);
                    c.saw(&check_value_loose(&t)?);
                    Ok(())
                });
            }
        }
    }
}

fn run(cx: &mut Cx) {
    #[cfg(not(feature = "no_bracket"))]
    run_readers(cx);

    cx.family("every literal in every place");
    let lits: [(&str, f64); 18] = [
        ("1", 1.0), ("10k", 1e4), ("4.7u", 4.7e-6), ("22n", 22e-9), ("33p", 33e-12), ("2e3", 2e3), ("5.5e-2", 5.5e-2), ("+3", 3.0), ("100m", 0.1),
        ("1kOhm", 1e3), ("10uF", 1e-5), ("2.5V", 2.5), ("7mA", 7e-3), ("1e+2", 100.0), ("12345.6789", 12345.6789), ("0.5", 0.5), ("3ms", 3e-3), ("6ns", 6e-9),
    ];
    for (t, v) in lits {
        for neg in [false, true] {
            for place in 0..10 {
                let t = if neg { format!("-{}", t.trim_start_matches('+')) } else { t.to_string() };
                let v = if neg { -v } else { v };
                let (line, kind, at) = match place {
                    0 => (format!("R1 a b {}", t), 'R', 0),
                    1 => (format!("C1 a b {}", t), 'C', 0),
                    2 => (format!("V1 a b {}", t), 'V', 0),
                    3 => (format!("I1 a b {}", t), 'I', 0),
                    4 => (format!("E1 a b c 0 {}", t), 'E', 0),
                    5 => (format!("G1 a b c 0 {}", t), 'G', 0),
                    6 => (format!("V1 a b SIN({} 1 2)", t), 'v', 0),
                    7 => (format!("I1 a b SIN(1 {} 2)", t), 'i', 1),
                    8 => (format!("V1 a b PWL(0, {}, 9, 1)", t), 'w', 3),
                    _ => (format!("X1 a b sub p={}", t), 'R', 0),
                };
                let text = format!("t\n{}\nR8 a b 77\nR9 c 0 88\n.subckt sub x y p=9\nR1 x y {{p}}\n.ends\n", line);
                cx.case(&|| text.clone(), &mut |c| {
                    let (ckt, _) = read_deck(&text)?;
                    c.validated();
                    c.step();
                    let obs = hier::observe(&ckt)?;
                    let got: Vec<f64> = obs.iter().filter(|o| o.0.kind == kind && o.0.vals.get(at) != Some(&77.0) && o.0.vals.get(at) != Some(&88.0)).map(|o| o.0.vals[at]).collect();
                    c.saw(&text);
                    if got.len() == 1 && close(got[0], v, 1e-14, 0.0) { Ok(()) } else { Err(format!("{} is read as {:?}, expected {:e}", t, got, v)) }
                });
            }
        }
    }
}

/// long literals: rounding of my own evaluation is bigger
#[cfg(not(feature = "no_bracket"))]
fn check_value_loose(t: &str) -> Result<u8, String> {
    match (want(t), extract_value(t)) {
        (Want::Is(w), Some(g)) => if close(w, g, 1e-9, 0.0) || !w.is_finite() || w.is_nan() { Ok(0) } else { Err(format!("{} is {:e}, read as {:e}", t, w, g)) },
        (Want::Is(w), None) => Err(format!("{} is {:e}, rejected", t, w)),
        (Want::No, Some(g)) => Err(format!("{} isn't a number, read as {:e}", t, g)),
        _ => Ok(1),
    }
}
