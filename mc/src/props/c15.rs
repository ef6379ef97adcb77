//! C15 diode model
use crate::harness::*;
use crate::net::*;
use tiny_spice::circuit::{BOLTZMANN, CHARGE, GMIN};
use tiny_spice::element::diode::Diode;

pub fn def() -> PropDef {
    PropDef {
        id: "C15",
        run,
        rule: "every sequence of up to 4 (thorough 5) requested voltages over an alphabet from deep reverse to far forward bias and around the critical voltage, for every saturation current and temperature; each followed by the same request over and over, and by every request on a copy",
        hang_s: 20,
    }
}

struct Law {
    is: f64,
    vt: f64,
}

impl Law {
    fn crit(&self) -> f64 {
        self.vt * (self.vt / (2f64.sqrt() * self.is)).ln()
    }
    /// conductance and current source of the tangent at a voltage
    fn tangent(&self, v: f64) -> (f64, f64) {
        let e = (v / self.vt).exp();
        let g = (self.is / self.vt * e).max(GMIN);
        (g, self.is * (e - 1.0) - g * v)
    }
    /// the voltage at which a companion model is a tangent
    fn voltage(&self, g: f64, i: f64) -> f64 {
        if g > GMIN * (1.0 + 1e-12) {
            return self.vt * (g * self.vt / self.is).ln();
        }
        // slope is pinned at GMIN: i = Is*(exp(v/vt) - 1) - GMIN*v, falling in v up to here
        let (mut lo, mut hi) = (-1e4, self.vt * (GMIN * self.vt / self.is).ln());
        for _ in 0..200 {
            let m = (lo + hi) / 2.0;
            if self.is * ((m / self.vt).exp() - 1.0) - GMIN * m > i {
                lo = m;
            } else {
                hi = m;
            }
        }
        lo
    }
    fn agree(&self, v: f64, g: f64, i: f64) -> Result<(), String> {
        let (wg, wi) = self.tangent(v);
        // v/vt is only good to a few ulp
        let rel = 1e-9 * (1.0 + (v / self.vt).abs() * 1e-2);
        let scale = wi.abs().max((wg * v).abs()).max(self.is);
        if (g - wg).abs() > rel * wg {
            return Err(format!("at {:e} V: conductance {:e}, tangent has {:e}", v, g, wg));
        }
        if (i - wi).abs() > rel * scale {
            return Err(format!("at {:e} V: current {:e}, tangent has {:e}", v, i, wi));
        }
        Ok(())
    }
}

/// One request; the voltage it was linearised at comes back
fn ask(law: &Law, d: &Diode, v: f64, prev: f64) -> Result<f64, String> {
    let (g, i) = linearize(d, v);
    if !(g.is_finite() && i.is_finite()) {
        return Err(format!("request {:e}: model is {:e}, {:e}", v, g, i));
    }
    if g < GMIN {
        return Err(format!("request {:e}: conductance {:e} is below GMIN", v, g));
    }
    let crit = law.crit();
    // reverse, mild forward, or hardly a change
    if v <= 0.0 || v < crit * (1.0 - 1e-9) || (v - prev).abs() <= 2.0 * law.vt * (1.0 - 1e-9) {
        law.agree(v, g, i).map_err(|m| format!("request {:e} after {:e}: {}", v, prev, m))?;
        return Ok(v);
    }
    if law.agree(v, g, i).is_ok() {
        return Ok(v);
    }
    let op = law.voltage(g, i);
    law.agree(op, g, i).map_err(|m| format!("request {:e} after {:e}: not a tangent anywhere: {}", v, prev, m))?;
    let eps = 1e-9;
    let (lo, hi) = if v > prev { (prev, v) } else { (crit.min(v), prev) };
    if op < lo - eps || op > hi + eps {
        return Err(format!("request {:e} after {:e}: limited to {:e}", v, prev, op));
    }
    Ok(op)
}

fn history(law: &Law, temp: f64, hist: &[f64], volts: &[f64], c: &mut Case) -> Result<(), String> {
    let d = Diode::new("D1", 1, 0, law.is, temp);
    let control = Diode::new("D1", 1, 0, law.is, temp);
    let mut prev = 0.0;
    for v in hist {
        prev = ask(law, &d, *v, prev)?;
        linearize(&control, *v);
        c.step();
    }
    c.saw(&((prev * 1e9).round() as i64));

    // copies go their own way
    let copy = d.clone();
    for v in volts {
        linearize(&copy, *v);
    }
    let second = d.clone();

    // over and over
    let v = hist[hist.len() - 1];
    let mut n = 0;
    loop {
        let (g, i) = linearize(&d, v);
        let (g2, i2) = linearize(&control, v);
        let (g3, i3) = linearize(&second, v);
        c.step();
        if (g, i) != (g2, i2) {
            return Err("a request on a copy had an effect on the original".to_string());
        }
        if (g, i) != (g3, i3) {
            return Err("a copy doesn't go on from where the original was, or the original had an effect on it".to_string());
        }
        if law.agree(v, g, i).is_ok() {
            break;
        }
        n += 1;
        let bound = 100.0 + 2.0 * v.abs() / law.vt;
        if f64::from(n) > bound {
            return Err(format!("{:e} V not reached after {} requests", v, n));
        }
    }
    // and stays there
    let (g, i) = linearize(&d, v);
    law.agree(v, g, i)?;
    Ok(())
}

fn run(cx: &mut Cx) {
    let sats: &[f64] = &[1e-15, 1e-12, 1e-9, 1e-6];
    let temps: &[f64] = &[-40.0, 0.0, 27.0, 100.0];
    for len in 1..=cx.deep(4, 5, 6) {
        cx.family(&format!("all histories of {} requests", len));
        for is in sats {
            for temp in temps {
                let laws = [
                    Law { is: *is, vt: BOLTZMANN * (273.15 + temp) / CHARGE },
                    Law { is: *is, vt: BOLTZMANN * (363.0 + temp) / CHARGE },
                ];
                let k = laws[1].crit();
                let mut volts = vec![-100.0, -5.0, -0.3, -0.01, 0.0, 0.01, 0.2, 0.45, k * 0.999, k * 1.001, k + 0.05, 0.7, 0.85, 1.2, 2.0, 5.0, 10.0];
                if len >= 5 {
                    volts = vec![-50.0, -0.3, 0.0, 0.2, k * 0.99, k * 1.01, 0.8, 1.3, 5.0, 10.0];
                }
                let nv = volts.len();
                // one case for each choice of all but the last
                tuples(len - 1, nv, &mut |ix| {
                    cx.case(
                        &|| format!("Is={:e} at {} C, requests {:?} and then each of {:?}", is, temp, ix.iter().map(|k| volts[*k]).collect::<Vec<_>>(), volts),
                        &mut |c| {
                            for last in &volts {
                                let mut h: Vec<f64> = ix.iter().map(|k| volts[*k]).collect();
                                h.push(*last);
                                let mut scratch = Case::default();
                                if history(&laws[0], *temp, &h, &volts, &mut scratch).is_ok() {
                                    c.saw(&scratch.outcome);
                                    c.steps(scratch.transitions as usize);
                                    continue;
                                }
                                history(&laws[1], *temp, &h, &volts, c).map_err(|m| format!("history {:?}: {}", h, m))?;
                                if c.known.is_empty() {
                                    c.known("thermal-voltage-363", "diode thermal voltage is k*(363+T)/q, not k*(273.15+T)/q".to_string());
                                }
                            }
                            c.validated();
                            Ok(())
                        },
                    );
                });
            }
        }
    }

    // up and down, round and round
    cx.family("long histories");
    for is in sats {
        for temp in temps {
            let laws = [
                Law { is: *is, vt: BOLTZMANN * (273.15 + temp) / CHARGE },
                Law { is: *is, vt: BOLTZMANN * (363.0 + temp) / CHARGE },
            ];
            let k = laws[1].crit();
            let volts = [-20.0, -0.3, 0.0, 0.2, k * 0.99, k * 1.01, 0.8, 1.3, 10.0];
            let mut patterns: Vec<(String, Vec<f64>)> = vec![];
            for a in volts {
                for b in volts {
                    for reps in [7usize, 40, 129] {
                        if reps > 40 && !cx.thorough() && a > b {
                            continue;
                        }
                        patterns.push((format!("{:e} and {:e}, {} times each", a, b, reps), [a, b].repeat(reps)));
                    }
                    let ramp = |n: usize| (0..=n).map(|k| a + (b - a) * k as f64 / n as f64).collect::<Vec<f64>>();
                    patterns.push((format!("from {:e} to {:e} in 100 steps", a, b), ramp(100)));
                    patterns.push((format!("from {:e} to {:e} and back, twice", a, b), [ramp(13), ramp(13).into_iter().rev().collect(), ramp(29), ramp(29).into_iter().rev().collect()].concat()));
                }
            }
            for (what, h) in patterns {
                cx.case(&|| format!("Is={:e} at {} C, {}", is, temp, what), &mut |c| {
                    let mut scratch = Case::default();
                    c.validated();
                    if history(&laws[0], *temp, &h, &volts, &mut scratch).is_ok() {
                        c.saw(&scratch.outcome);
                        c.steps(scratch.transitions as usize);
                        return Ok(());
                    }
                    history(&laws[1], *temp, &h, &volts, c)?;
                    c.known("thermal-voltage-363", "diode thermal voltage is k*(363+T)/q, not k*(273.15+T)/q".to_string());
                    Ok(())
                });
            }
        }
    }
}
