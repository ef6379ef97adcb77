//! C05 source waveforms
use super::util::*;
use crate::harness::*;
use crate::net::*;
use std::f64::consts::PI;
use tiny_spice::circuit::*;

pub fn def() -> PropDef {
    PropDef {
        id: "C05",
        run,
        rule: "every PWL pattern of up to 4 (thorough 5) points over a grid of times (with repeats, so steps) and values x delay x repeat/hold, evaluated at every point of a dyadic time grid reaching past several periods and at far times, against the specified waveform; the same pattern scaled to ms/us/ns (away from the discontinuities); SIN over offset x amplitude x frequency x times including every quarter period; all of these again through the text forms of a deck",
        hang_s: 20,
    }
}

fn vpwl(s: &PwlSpec) -> VoltageSourcePwl {
    VoltageSourcePwl { p: 1, n: 0, pat: s.pat.clone(), t_delay: s.td, repeat: if s.rep { 0.0 } else { -1.0 }, idx: 0 }
}

/// all patterns, those that don't start at time 0 included
fn patterns(len: usize, times: &[f64], vals: &[f64], f: &mut dyn FnMut(Vec<(f64, f64)>)) {
    multisets(len, times.len(), &mut |ti| {
        tuples(len, vals.len(), &mut |vi| f((0..len).map(|k| (times[ti[k]], vals[vi[k]])).collect()));
    });
}

fn scaled(s: &PwlSpec, k: f64) -> PwlSpec {
    PwlSpec { pat: s.pat.iter().map(|(t, v)| (t * k, *v)).collect(), td: s.td * k, rep: s.rep }
}

/// Is `got` the value at `t`, or so close to `t` that rounding decides? At a step both sides are right.
fn right(s: &PwlSpec, t: f64, got: f64, tol: f64) -> Result<(), String> {
    let want = pwl_ref(s, t);
    if close(got, want, tol, 4.0) {
        return Ok(());
    }
    let eps = 1e-9 * (t.abs() + s.pat[s.pat.len() - 1].0 + s.td);
    for d in [-eps, eps] {
        // away from the corner by as much as matters
        let w = pwl_ref(s, t + d);
        if close(got, w, 1e-6, 4.0) {
            return Ok(());
        }
    }
    // where several points share a time the source is at each of them for that instant
    let end = s.pat[s.pat.len() - 1].0;
    let mut since = t - s.td;
    if s.rep && since > 0.0 && end > 0.0 {
        since %= end;
    }
    let wrap = if s.rep { end } else { 0.0 };
    if s.pat.iter().any(|p| [0.0, wrap, -wrap].iter().any(|w| (since - p.0 - w).abs() <= eps) && close(got, p.1, 1e-6, 4.0)) {
        return Ok(());
    }
    Err(format!("at t={:e} the source is {} V, expected {} V", t, got, want))
}

fn ulps(mut x: f64, k: i32) -> f64 {
    for _ in 0..k.abs() {
        x = if k > 0 { x.next_up() } else { x.next_down() };
    }
    x
}

fn run(cx: &mut Cx) {
    let times = [0.0, 0.5, 1.0, 2.5];
    let vals = [0.0, 1.0, -2.0, 4.0];
    for len in 1..=cx.deep(4, 5, 6) {
        cx.family(&format!("PWL patterns of {} points", len));
        patterns(len, &times, &vals, &mut |pat| {
            for td in [0.0, 0.25, 1.0, 3.0] {
                for rep in [false, true] {
                    let s = PwlSpec { pat: pat.clone(), td, rep };
                    if rep && s.pat[s.pat.len() - 1].0 == 0.0 {
                        continue; // a period of nothing
                    }
                    cx.case(&|| format!("{:?}", s), &mut |c| {
                        let src = vpwl(&s);
                        c.validated();
                        let mut dig = vec![];
                        let mut ts: Vec<f64> = (0..=14 * 16).map(|k| f64::from(k) / 16.0).collect();
                        ts.extend([100.0, 100.25, 1024.5, 65536.75, 1e6 + 0.125]);
                        for t in ts {
                            // the far times wrap round many times: fold them exactly
                            let end = s.pat[s.pat.len() - 1].0;
                            let near = if s.rep && t > 20.0 { s.td + ((t - s.td) * 16.0) .rem_euclid(end * 16.0) / 16.0 } else { t };
                            let want = pwl_ref(&s, near);
                            let got = src.evaluate(t);
                            c.step();
                            if !close(got, want, 1e-12, 4.0) {
                                return Err(format!("at t={} the source is {} V, expected {} V", t, got, want));
                            }
                            dig.push((want * 64.0) as i64);
                        }
                        c.saw(&dig);
                        // the same in other time units
                        for k in [1e-3, 1e-6, 1e-9, 7e-5] {
                            let s2 = scaled(&s, k);
                            let src = vpwl(&s2);
                            for i in 0..=96 {
                                let t = f64::from(i) * k / 11.0;
                                c.step();
                                right(&s2, t, src.evaluate(t), 1e-8).map_err(|m| format!("{} (times x{:e})", m, k))?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        });
    }

    // zigzags, with a step here and there, of any length: from the library and from a deck
    cx.family("long PWL patterns");
    for n in (2..=cx.deep(150, 400, 1200)).chain([255, 256, 257, 258]) {
        for form in 0..4 {
            let pat: Vec<(f64, f64)> = (0..n).map(|k| {
                let t = if form == 1 { k - k % 2 } else { k };
                (t as f64 * 0.5, ((k * 7) % 11) as f64 - 5.0)
            }).collect();
            let s = PwlSpec { pat, td: if form == 2 { 1.0 } else { 0.0 }, rep: form > 1 };
            let body: Vec<String> = s.pat.iter().map(|(t, v)| format!("{}, {}", t, v)).collect();
            let text = format!("t\nV1 a 0 PWL({}) td={} r={}\nR1 a 0 1\n", body.join(", "), s.td, if s.rep { 0 } else { -1 });
            cx.case(&|| format!("{} points, form {}", n, form), &mut |c| {
                let (ckt, _) = read_deck(&text)?;
                let read = ckt.elements.iter().find_map(|e| if let Element::Vpwl(s) = e { Some(s.clone()) } else { None }).ok_or("no PWL source")?;
                c.validated();
                let direct = vpwl(&s);
                for k in 0..=(n as i32 * 4 + 40) {
                    let t = f64::from(k) / 8.0;
                    c.step();
                    for src in [&direct, &read] {
                        let (got, want) = (src.evaluate(t), pwl_ref(&s, if s.rep && t > s.td { (t - s.td) % s.pat[n - 1].0 + s.td } else { t }));
                        if !close(got, want, 1e-12, 4.0) {
                            return Err(format!("at t={} the source is {} V, expected {} V", t, got, want));
                        }
                    }
                }
                c.saw(&(n, form));
                Ok(())
            });
        }
    }

    // delays and corners which aren't binary fractions, at times which come out at, just before or just
    // after a corner however they are worked out
    cx.family("PWL corners at decimal times");
    let top = cx.deep(30, 60, 300);
    for unit in ["e0", "e-1", "e-2", "e-3", "e-6", "e-9"] {
        let at = |k: usize| -> f64 { format!("{}{}", k, unit).parse().unwrap_or(f64::NAN) };
        for a in 0..=top {
            for b in 1..=top {
                for form in 0..4 {
                    for rep in [false, true] {
                        let pat = match form {
                            0 => vec![(0.0, 0.0), (at(b), 4.0)],
                            1 => vec![(0.0, 1.0), (at(b), -2.0), (at(2 * b), 3.0)],
                            2 => vec![(at(b), 2.0), (at(b + 7), 2.0)],
                            _ => vec![(0.0, 3.0), (at(b), 3.0), (at(b), -1.0), (at(b + 3), 0.5)],
                        };
                        let s = PwlSpec { pat, td: at(a), rep };
                        cx.case(&|| format!("{:?}", s), &mut |c| {
                            let src = vpwl(&s);
                            c.validated();
                            let end = s.pat[s.pat.len() - 1].0;
                            let mut ts = vec![s.td, at(a + b), at(b) + at(a)];
                            for q in &s.pat {
                                for n in 0..3 {
                                    ts.extend([s.td + q.0 + f64::from(n) * end, s.td + (q.0 + f64::from(n) * end)]);
                                }
                            }
                            // the sums a simulation goes through
                            let (mut sum, dt) = (0.0, at(1));
                            for k in 0..=(a + 2 * b + 8) {
                                ts.extend([sum, k as f64 * dt, at(k)]);
                                sum += dt;
                            }
                            for t in ts {
                                for k in -2..=2 {
                                    let t = ulps(t, k);
                                    if t < 0.0 {
                                        continue;
                                    }
                                    c.step();
                                    right(&s, t, src.evaluate(t), 1e-9)?;
                                }
                            }
                            c.saw(&(a, b, form, rep));
                            Ok(())
                        });
                    }
                }
            }
        }
    }

    cx.family("SIN offset x amplitude x frequency");
    let vos = [0.0, 1.0, -2.5, 1e-3, 1e6];
    let vas = [0.0, 1.0, -3.0, 170.0, 1e-6];
    let fs = [0.0, 1.0, 0.5, 50.0, 60.0, 1e3, 1e6, 4e9, 0.001, -2.0];
    for vo in vos {
        for va in vas {
            for freq in fs {
                cx.case(&|| format!("SIN({} {} {})", vo, va, freq), &mut |c| {
                    let v = VoltageSourceSine { p: 1, n: 0, vo, va, freq, idx: 0 };
                    let i = CurrentSourceSine { p: 1, n: 0, vo, va, freq };
                    c.validated();
                    let one = |t: f64, want: f64, c: &mut Case| -> Result<(), String> {
                        c.step();
                        for (what, got) in [("V", v.evaluate(t)), ("I", i.evaluate(t))] {
                            let tol = 1e-12 * vo.abs() + va.abs() * (1e-12 + (freq * t).abs() * 1e-13);
                            if (got - want).abs() > tol {
                                return Err(format!("{} source at t={:e} is {:e}, expected {:e}", what, t, got, want));
                            }
                        }
                        Ok(())
                    };
                    one(0.0, vo, c)?;
                    if freq != 0.0 {
                        let sg = f64::from(freq.signum() as i32);
                        // exact values at the twelfths
                        let tab = [0.0, 0.5, 0.75f64.sqrt(), 1.0, 0.75f64.sqrt(), 0.5, 0.0, -0.5, -(0.75f64.sqrt()), -1.0, -(0.75f64.sqrt()), -0.5];
                        for k in 0..600usize {
                            one(k as f64 / (12.0 * freq.abs()), vo + sg * va * tab[k % 12], c)?;
                        }
                        c.saw(&((vo * 1e6) as i64, (va * 1e6) as i64));
                    }
                    for k in 0..200 {
                        let t = f64::from(k) * 0.003_7;
                        if (freq * t).abs() < 1e7 {
                            one(t, vo + va * (2.0 * PI * freq * t).sin(), c)?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }

    cx.family("SIN through the deck, every way to write it");
    let nums: [(&str, f64); 8] = [("0", 0.0), ("1.5", 1.5), ("-2", -2.0), ("10m", 1e-2), ("3k", 3e3), ("1e3", 1e3), ("50Hz", 50.0), ("7uV", 7e-6)];
    for (k, a) in nums.iter().enumerate() {
        for b in &nums {
            for (l, f) in nums.iter().enumerate() {
                let form = (k + l) % 3;
                let txt = match form {
                    0 => format!("SIN({} {} {})", a.0, b.0, f.0),
                    1 => format!("SIN( {} {} {} )", a.0, b.0, f.0),
                    _ => format!("SIN({}   {}\t{} )", a.0, b.0, f.0),
                };
                let text = format!("t\nV1 a 0 {}\nI1 a 0 {}\nR1 a 0 1\n", txt, txt);
                cx.case(&|| text.clone(), &mut |c| {
                    let (ckt, _) = read_deck(&text)?;
                    c.validated();
                    let mut n = 0;
                    for e in &ckt.elements {
                        let g = match e {
                            Element::Vsin(s) => [s.vo, s.va, s.freq],
                            Element::Isin(s) => [s.vo, s.va, s.freq],
                            _ => continue,
                        };
                        n += 1;
                        for (g, w) in g.iter().zip([a.1, b.1, f.1]) {
                            if !close(*g, w, 1e-12, 0.0) {
                                return Err(format!("read as {:?}", g));
                            }
                        }
                    }
                    c.saw(&txt);
                    if n == 2 { Ok(()) } else { Err(format!("{} sources read", n)) }
                });
            }
        }
    }

    cx.family("PWL through the deck, every way to write it");
    for len in 1..=3 {
        patterns(len, &[0.0, 1.0, 2.5], &[0.0, 3.0, -1.5], &mut |pat| {
            for td in ["", "td=0.25", "td=2"] {
                for r in ["", "r=0", "r=-1"] {
                    if r == "r=0" && pat[pat.len() - 1].0 == 0.0 {
                        continue;
                    }
                    for form in 0..5 {
                        for swap in [false, true] {
                            if swap && (td.is_empty() || r.is_empty()) {
                                continue;
                            }
                            let ps: Vec<String> = pat.iter().map(|(t, v)| match form {
                                0 => format!("{}, {}", num(*t), num(*v)),
                                1 => format!("{},{}", num(*t), num(*v)),
                                2 => format!("{}s , {}V", num(*t), num(*v)),
                                3 => format!("{}m, {}m", num(*t * 1000.0), num(*v * 1000.0)),
                                _ => format!("{}e-3,{}e-3", num(*t * 1000.0), num(*v * 1000.0)),
                            }).collect();
                            let body = match form {
                                0 => format!("PWL({})", ps.join(", ")),
                                1 => format!("PWL({})", ps.join(",")),
                                2 => format!("PWL( {} )", ps.join(" , ")),
                                3 => format!("PWL({} )", ps.join(",\t")),
                                _ => format!("PWL({})", ps.join(",  ")),
                            };
                            let (p, q) = if swap { (r, td) } else { (td, r) };
                            let text = format!("t\nV1 a 0 {} {} {}\nR1 a 0 1\n", body, p, q);
                            let spec = PwlSpec { pat: pat.clone(), td: if td.is_empty() { 0.0 } else { td[3..].parse().unwrap_or(0.0) }, rep: r == "r=0" };
                            cx.case(&|| text.clone(), &mut |c| {
                                let (ckt, _) = read_deck(&text)?;
                                c.validated();
                                for e in &ckt.elements {
                                    if let Element::Vpwl(s) = e {
                                        for k in 0..80 {
                                            let t = f64::from(k) / 8.0;
                                            c.step();
                                            right(&spec, t, s.evaluate(t), 1e-12)?;
                                        }
                                        c.saw(&text);
                                        return Ok(());
                                    }
                                }
                                Err("no PWL source".to_string())
                            });
                        }
                    }
                }
            }
        });
    }
}
