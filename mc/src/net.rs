//! Reference model of circuits: a plain list of elements with the equations each one stands for.
//! Nothing in here is shared with the code under test except the constructors used to build the
//! same circuit there.

use tiny_spice::analysis::Configuration;
use tiny_spice::circuit::*;
use tiny_spice::engine::Engine;

#[derive(Clone, Debug, PartialEq)]
pub struct PwlSpec {
    pub pat: Vec<(f64, f64)>,
    pub td: f64,
    pub rep: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum El {
    R(usize, usize, f64),
    C(usize, usize, f64),
    D(usize, usize, f64),
    I(usize, usize, f64),
    V(usize, usize, f64),
    Is(usize, usize, [f64; 3]),
    Vs(usize, usize, [f64; 3]),
    Vp(usize, usize, PwlSpec),
    E(usize, usize, usize, usize, f64),
    G(usize, usize, usize, usize, f64),
}
use El::*;

pub fn sin_ref(p: &[f64; 3], t: f64) -> f64 {
    p[0] + p[1] * (2.0 * std::f64::consts::PI * p[2] * t).sin()
}

/// The specified PWL waveform
pub fn pwl_ref(s: &PwlSpec, t: f64) -> f64 {
    if s.pat.is_empty() || t < s.td {
        return 0.0;
    }
    let (t_end, v_end) = s.pat[s.pat.len() - 1];
    let mut tc = t - s.td;
    if !s.rep {
        if tc >= t_end {
            return v_end;
        }
    } else {
        while tc >= t_end {
            tc -= t_end;
        }
    }
    // starts from (0,0) if the pattern doesn't say otherwise
    let (mut t0, mut v0) = (0.0, 0.0);
    for &(t1, v1) in &s.pat {
        if tc >= t1 {
            t0 = t1;
            v0 = v1;
        } else {
            return v0 + (v1 - v0) * (tc - t0) / (t1 - t0);
        }
    }
    v0
}

impl El {
    pub fn nodes(&self) -> Vec<usize> {
        match self {
            R(a, b, _) | C(a, b, _) | D(a, b, _) | I(a, b, _) | V(a, b, _) => vec![*a, *b],
            Is(a, b, _) | Vs(a, b, _) => vec![*a, *b],
            Vp(a, b, _) => vec![*a, *b],
            E(a, b, c, d, _) | G(a, b, c, d, _) => vec![*a, *b, *c, *d],
        }
    }
    pub fn has_branch(&self) -> bool {
        matches!(self, V(..) | Vs(..) | Vp(..) | E(..))
    }
    pub fn map(&self, f: &dyn Fn(usize) -> usize) -> El {
        let mut e = self.clone();
        match &mut e {
            R(a, b, _) | C(a, b, _) | D(a, b, _) | I(a, b, _) | V(a, b, _) => {
                *a = f(*a);
                *b = f(*b);
            }
            Is(a, b, _) | Vs(a, b, _) => {
                *a = f(*a);
                *b = f(*b);
            }
            Vp(a, b, _) => {
                *a = f(*a);
                *b = f(*b);
            }
            E(a, b, c, d, _) | G(a, b, c, d, _) => {
                *a = f(*a);
                *b = f(*b);
                *c = f(*c);
                *d = f(*d);
            }
        }
        e
    }
    /// A voltage source from a node to itself has no current of its own
    pub fn degenerate(&self) -> bool {
        match self {
            V(a, b, _) | Vs(a, b, _) | Vp(a, b, _) | E(a, b, _, _, _) => a == b,
            _ => false,
        }
    }
    /// The card for a deck; `k` makes the identifier unique
    pub fn card(&self, k: usize, name: &dyn Fn(usize) -> String) -> String {
        match self {
            R(a, b, v) => format!("R{} {} {} {}", k, name(*a), name(*b), num(*v)),
            C(a, b, v) => format!("C{} {} {} {}", k, name(*a), name(*b), num(*v)),
            D(a, b, _) => format!("D{} {} {}", k, name(*a), name(*b)),
            I(a, b, v) => format!("I{} {} {} {}", k, name(*a), name(*b), num(*v)),
            V(a, b, v) => format!("V{} {} {} {}", k, name(*a), name(*b), num(*v)),
            Is(a, b, p) => format!("I{} {} {} SIN({} {} {})", k, name(*a), name(*b), num(p[0]), num(p[1]), num(p[2])),
            Vs(a, b, p) => format!("V{} {} {} SIN({} {} {})", k, name(*a), name(*b), num(p[0]), num(p[1]), num(p[2])),
            Vp(a, b, s) => {
                let pat: Vec<String> = s.pat.iter().map(|(t, v)| format!("{}, {}", num(*t), num(*v))).collect();
                let mut l = format!("V{} {} {} PWL({})", k, name(*a), name(*b), pat.join(", "));
                if s.td != 0.0 {
                    l += &format!(" td={}", num(s.td));
                }
                if s.rep {
                    l += " r=0";
                }
                l
            }
            E(a, b, c, d, g) => format!("E{} {} {} {} {} {}", k, name(*a), name(*b), name(*c), name(*d), num(*g)),
            G(a, b, c, d, g) => format!("G{} {} {} {} {} {}", k, name(*a), name(*b), name(*c), name(*d), num(*g)),
        }
    }
}

/// A number as a deck literal which reads back as exactly the same f64
pub fn num(v: f64) -> String {
    if v == v.trunc() && v.abs() < 1e15 {
        format!("{}", v)
    } else if v.abs() >= 1e-3 && v.abs() < 1e6 {
        format!("{}", v)
    } else {
        format!("{:e}", v)
    }
}

pub fn show(els: &[El]) -> String {
    els.iter().enumerate().map(|(k, e)| e.card(k, &|n| n.to_string())).collect::<Vec<_>>().join("\n")
}

pub fn n_nodes(els: &[El]) -> usize {
    els.iter().flat_map(|e| e.nodes()).max().unwrap_or(0) + 1
}

/// All nodes from 0 up are used
pub fn contiguous(els: &[El]) -> bool {
    let n = n_nodes(els);
    let mut used = vec![false; n];
    used[0] = true;
    for e in els {
        for x in e.nodes() {
            used[x] = true;
        }
    }
    used.iter().all(|u| *u)
}

pub fn lib_element(e: &El, k: usize, idx: usize) -> Element {
    let ident = format!("{}", k);
    match e.clone() {
        R(a, b, value) => Element::R(Resistor { ident, a, b, value }),
        C(a, b, value) => Element::C(Capacitor { ident, a, b, value }),
        D(p, n, isat) => Element::D(Diode::new(&ident, p, n, isat, 27.0)),
        I(p, n, value) => Element::I(CurrentSource { p, n, value }),
        V(p, n, value) => Element::V(VoltageSource { p, n, value, idx }),
        Is(p, n, q) => Element::Isin(CurrentSourceSine { p, n, vo: q[0], va: q[1], freq: q[2] }),
        Vs(p, n, q) => Element::Vsin(VoltageSourceSine { p, n, vo: q[0], va: q[1], freq: q[2], idx }),
        Vp(p, n, s) => Element::Vpwl(VoltageSourcePwl {
            p,
            n,
            pat: s.pat,
            t_delay: s.td,
            repeat: if s.rep { 0.0 } else { -1.0 },
            idx,
        }),
        E(p, n, cp, cn, k) => Element::Vcvs(Vcvs { ident, p, n, cp, cn, k, idx }),
        G(p, n, cp, cn, k) => Element::Vccs(Vccs { ident, p, n, cp, cn, k }),
    }
}

/// Build with the construction API. Uses the `add_*` functions where there is one.
pub fn build(els: &[El]) -> Circuit {
    let mut ckt = Circuit::new();
    for i in 1..n_nodes(els) {
        ckt.add_node(&format!("n{}", i));
    }
    for (k, e) in els.iter().enumerate() {
        let idx = ckt.v_idx_next;
        match (e.clone(), lib_element(e, k, idx)) {
            (R(a, b, v), _) => ckt.add_r(format!("R{}", k), a, b, v),
            (C(a, b, v), _) => ckt.add_c(format!("C{}", k), a, b, v),
            (I(p, n, v), _) => ckt.add_i(p, n, v),
            (V(p, n, v), _) => ckt.add_v(p, n, v),
            (_, Element::D(d)) => ckt.add_d(d),
            (_, Element::Isin(s)) => ckt.add_i_sin(s),
            (_, Element::Vsin(s)) => ckt.add_v_sin(s),
            (_, Element::Vpwl(s)) => ckt.add_v_pwl(s),
            (_, Element::Vcvs(s)) => {
                ckt.elements.push(Element::Vcvs(s));
                ckt.v_idx_next += 1;
            }
            (_, el) => ckt.elements.push(el),
        }
    }
    ckt.build_node_id_lut();
    ckt
}

pub struct DcRes {
    pub x: Vec<f64>,
    pub iterations: usize,
}

pub fn run_dc(ckt: &Circuit, cfg: &Configuration) -> DcRes {
    let mut eng = Engine::new();
    let st = eng.dc_operating_point(ckt, cfg);
    DcRes { x: eng.dc().unwrap_or_default(), iterations: st.iterations }
}

impl DcRes {
    /// Reported as converged?
    pub fn accepted(&self, cfg: &Configuration) -> bool {
        self.iterations <= cfg.ITL1 && !self.x.is_empty() && self.x.iter().all(|v| v.is_finite())
    }
}

/// Diode law used as the oracle
#[derive(Clone, Copy)]
pub struct Shockley {
    pub vt: f64,
}
impl Shockley {
    pub fn i(&self, isat: f64, v: f64) -> f64 {
        isat * ((v / self.vt).exp() - 1.0)
    }
}

/// The companion model for a requested voltage. The simulator's second argument isn't used.
#[cfg(not(feature = "lin1"))]
pub fn linearize(d: &Diode, v: f64) -> (f64, f64) {
    d.linearize(v, 0.0)
}
#[cfg(feature = "lin1")]
pub fn linearize(d: &Diode, v: f64) -> (f64, f64) {
    d.linearize(v)
}

/// Thermal voltage the code works with, read off the small-signal conductance at 0 V
pub fn impl_vt() -> f64 {
    let (g, _) = linearize(&Diode::new("probe", 1, 0, 1e-6, 27.0), 0.0);
    1e-6 / g
}

pub struct Prev<'a> {
    pub x: &'a [f64],
    pub dt: f64,
}

/// How much slack the nonlinear elements get: how far the last two iterates can be apart
#[derive(Clone, Copy)]
pub struct Slack {
    pub reltol: f64,
    pub vntol: f64,
}

/// Check that `x` (node voltages, then branch currents in `branch` order) satisfies all the
/// equations of the circuit at time `t`. Returns the number of equations checked.
pub fn check_equations(
    els: &[El],
    nn: usize,
    branch: &[usize],
    x: &[f64],
    t: f64,
    prev: Option<&Prev>,
    vt: f64,
    slack: Option<Slack>,
) -> Result<usize, String> {
    let nb = els.iter().filter(|e| e.has_branch()).count();
    if x.len() != nn + nb {
        return Err(format!("solution has {} entries, expected {} nodes and {} branches", x.len(), nn, nb));
    }
    if x.iter().any(|v| !v.is_finite()) {
        return Err(format!("non-finite solution {:?}", x));
    }
    if x[0] != 0.0 {
        return Err(format!("ground is not at 0 V: {:?}", x));
    }
    let vmax = x[..nn].iter().fold(0.0f64, |m, v| m.max(v.abs()));
    // rounding of huge branch currents shows up in the voltages
    let vscale = vmax + 1e-3 * x[nn..].iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let mut sum = vec![0.0f64; nn];
    let mut scale = vec![0.0f64; nn];
    let mut extra = vec![0.0f64; nn];
    let mut eqs = 0;
    let mut kb = 0;
    // what rounding of the largest voltage does to the currents anywhere
    let gmax = els.iter().fold(0.0f64, |m, e| {
        m.max(match e {
            R(_, _, r) => 1.0 / r.abs(),
            G(_, _, _, _, g) => g.abs(),
            C(_, _, c) => prev.map_or(0.0, |p| c / p.dt),
            _ => 0.0,
        })
    });
    // and the more so with a large gain around
    let gained = els.iter().fold(0.0f64, |m, e| if let E(_, _, _, _, k) = e { m.max(k.abs()) } else { m }) * 4e-15 * vmax * gmax;
    let mut add = |n: usize, i: f64, s: f64| {
        sum[n] += i;
        scale[n] += s.abs();
    };
    let rounding = 1e-10;
    for e in els {
        // current p -> n through the element, its rounding scale
        let two = |a: usize, b: usize, i: f64, s: f64, add: &mut dyn FnMut(usize, f64, f64)| {
            add(a, i, s);
            add(b, -i, s);
        };
        let bi = if e.has_branch() {
            let i = x[nn + branch[kb]];
            kb += 1;
            i
        } else {
            0.0
        };
        match e {
            R(a, b, r) => two(*a, *b, (x[*a] - x[*b]) / r, (x[*a].abs() + x[*b].abs()) / r, &mut add),
            G(a, b, c, d, g) => two(*a, *b, g * (x[*c] - x[*d]), g.abs() * (x[*c].abs() + x[*d].abs()), &mut add),
            I(a, b, i) => two(*a, *b, *i, *i, &mut add),
            Is(a, b, p) => {
                let i = sin_ref(p, t);
                two(*a, *b, i, p[0].abs() + p[1].abs() * (1.0 + p[2].abs() * t), &mut add)
            }
            C(a, b, c) => {
                if let Some(p) = prev {
                    let dv = (x[*a] - x[*b]) - (p.x[*a] - p.x[*b]);
                    let s = x[*a].abs() + x[*b].abs() + p.x[*a].abs() + p.x[*b].abs();
                    // the timestep is only known from the difference of two printed times
                    let w = 1.0 + (t / p.dt).abs() * 1e-6;
                    two(*a, *b, c * dv / p.dt, c * s / p.dt * w, &mut add)
                }
            }
            D(a, b, isat) => {
                let v = x[*a] - x[*b];
                let i = Shockley { vt }.i(*isat, v);
                let vs = x[*a].abs() + x[*b].abs();
                // exp amplifies the rounding of v
                two(*a, *b, i, i.abs() * (1.0 + vs / vt) + isat.abs(), &mut add);
                if let Some(s) = slack {
                    // distance between the last iterates is bounded by the tolerances
                    let d = s.reltol * vs * (1.0 + s.reltol) + 2.0 * s.vntol;
                    let z = d / vt;
                    let bound = (i.abs() + isat.abs()) * (z.exp() - 1.0 - z).abs() * 1.5
                        + GMIN * d
                        + (i.abs() + isat) * 1e-12;
                    for n in [*a, *b] {
                        extra[n] += bound;
                    }
                }
            }
            V(a, b, v) => {
                two(*a, *b, bi, bi, &mut add);
                eqs += 1;
                kvl(x[*a] - x[*b], *v, vscale, e)?;
            }
            Vs(a, b, p) => {
                two(*a, *b, bi, bi, &mut add);
                eqs += 1;
                kvl(x[*a] - x[*b], sin_ref(p, t), vscale + (p[1] * p[2] * t * 1e-3).abs(), e)?;
            }
            Vp(a, b, s) => {
                two(*a, *b, bi, bi, &mut add);
                eqs += 1;
                let m = s.pat.iter().fold(0.0f64, |m, p| m.max(p.1.abs()));
                kvl(x[*a] - x[*b], pwl_ref(s, t), vscale + m, e)?;
            }
            E(a, b, c, d, k) => {
                two(*a, *b, bi, bi, &mut add);
                eqs += 1;
                kvl(x[*a] - x[*b], k * (x[*c] - x[*d]), vscale * (1.0 + k.abs()), e)?;
            }
        }
    }
    let imax = scale.iter().fold(0.0f64, |m, v| m.max(*v)) + vmax * gmax;
    for n in 1..nn {
        eqs += 1;
        let tol = rounding * scale[n] + 1e-12 * imax + gained + extra[n] + 1e-300;
        if !(sum[n].abs() <= tol) {
            return Err(format!(
                "KCL at node {} at t={:e}: currents leave a sum of {:e} A (allowed {:e} A); x={:?}",
                n, t, sum[n], tol, x
            ));
        }
    }
    Ok(eqs)
}

pub fn kvl(got: f64, want: f64, scale: f64, e: &El) -> Result<(), String> {
    if (got - want).abs() <= 1e-9 * scale + 1e-15 {
        Ok(())
    } else {
        Err(format!("source {:?} has {:e} V across it, expected {:e} V", e, got, want))
    }
}

/// Branch order when the circuit was built with `build`
pub fn branch_in_order(els: &[El]) -> Vec<usize> {
    (0..els.iter().filter(|e| e.has_branch()).count()).collect()
}

// ---------------------------------------------------------------------------------------------
// exact solution
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Q {
    n: i128,
    d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
impl Q {
    pub const ZERO: Q = Q { n: 0, d: 1 };
    fn new(n: i128, d: i128) -> Option<Q> {
        if d == 0 {
            return None;
        }
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Some(Q { n: s * n / g, d: s * d / g })
    }
    /// exact for the alphabets used (small decimals and binary fractions)
    pub fn from(v: f64) -> Option<Q> {
        for d in [1i128, 2, 3, 4, 5, 8, 10, 16, 20, 64, 100, 1000, 10000, 1_000_000, 1_000_000_000] {
            let n = (v * d as f64).round();
            if n.abs() < 1e15 && n / d as f64 == v {
                return Q::new(n as i128, d);
            }
        }
        None
    }
    fn mul(self, o: Q) -> Option<Q> {
        Q::new(self.n.checked_mul(o.n)?, self.d.checked_mul(o.d)?)
    }
    fn div(self, o: Q) -> Option<Q> {
        Q::new(self.n.checked_mul(o.d)?, self.d.checked_mul(o.n)?)
    }
    fn add(self, o: Q) -> Option<Q> {
        let n = self.n.checked_mul(o.d)?.checked_add(o.n.checked_mul(self.d)?)?;
        Q::new(n, self.d.checked_mul(o.d)?)
    }
    fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
    fn zero(self) -> bool {
        self.n == 0
    }
    pub fn f(self) -> f64 {
        self.n as f64 / self.d as f64
    }
}

#[derive(Debug)]
pub enum Exact {
    Unique(Vec<f64>),
    None,
    Many,
    /// ran out of integer range
    Unknown,
}

/// Exact DC solution: unknowns are the voltages of nodes 1.. and the branch currents
pub fn exact_dc(els: &[El]) -> Exact {
    exact_dc_opt(els).unwrap_or(Exact::Unknown)
}

fn exact_dc_opt(els: &[El]) -> Option<Exact> {
    let nn = n_nodes(els);
    let nb = els.iter().filter(|e| e.has_branch()).count();
    let w = nn - 1 + nb;
    let mut m = vec![vec![Q::ZERO; w + 1]; w];
    let one = Q::new(1, 1)?;
    let mut kb = 0;
    let acc = |m: &mut Vec<Vec<Q>>, r: usize, c: usize, v: Q| -> Option<()> {
        m[r][c] = m[r][c].add(v)?;
        Some(())
    };
    for e in els {
        // signed terminals: current leaves p, enters n
        let stamp = |p: usize, n: usize, terms: &[(usize, Q)], m: &mut Vec<Vec<Q>>| -> Option<()> {
            for (node, sg) in [(p, one), (n, one.neg())] {
                if node == 0 {
                    continue;
                }
                for (c, q) in terms {
                    acc(m, node - 1, *c, q.mul(sg)?)?;
                }
            }
            Some(())
        };
        let col = |n: usize| n - 1;
        let branch = |p: usize, n: usize, v: Q, ctl: Option<(usize, usize, Q)>, m: &mut Vec<Vec<Q>>, kb: &mut usize| -> Option<()> {
            let b = nn - 1 + *kb;
            *kb += 1;
            for (node, sg) in [(p, one), (n, one.neg())] {
                if node != 0 {
                    acc(m, node - 1, b, sg)?;
                    acc(m, b, node - 1, sg)?;
                }
            }
            if let Some((cp, cn, k)) = ctl {
                if cp != 0 {
                    acc(m, b, cp - 1, k.neg())?;
                }
                if cn != 0 {
                    acc(m, b, cn - 1, k)?;
                }
            }
            acc(m, b, w, v)
        };
        match e {
            R(a, b, r) => {
                let g = one.div(Q::from(*r)?)?;
                let mut t = vec![];
                if *a != 0 {
                    t.push((col(*a), g));
                }
                if *b != 0 {
                    t.push((col(*b), g.neg()));
                }
                stamp(*a, *b, &t, &mut m)?;
            }
            G(a, b, c, d, g) => {
                let g = Q::from(*g)?;
                let mut t = vec![];
                if *c != 0 {
                    t.push((col(*c), g));
                }
                if *d != 0 {
                    t.push((col(*d), g.neg()));
                }
                stamp(*a, *b, &t, &mut m)?;
            }
            I(a, b, i) => stamp(*a, *b, &[(w, Q::from(*i)?.neg())], &mut m)?,
            Is(a, b, p) => stamp(*a, *b, &[(w, Q::from(p[0])?.neg())], &mut m)?,
            C(..) => {}
            D(..) => return Some(Exact::Unknown),
            V(a, b, v) => branch(*a, *b, Q::from(*v)?, None, &mut m, &mut kb)?,
            Vs(a, b, p) => branch(*a, *b, Q::from(p[0])?, None, &mut m, &mut kb)?,
            Vp(a, b, s) => branch(*a, *b, Q::from(pwl_ref(s, 0.0))?, None, &mut m, &mut kb)?,
            E(a, b, c, d, k) => branch(*a, *b, Q::ZERO, Some((*c, *d, Q::from(*k)?)), &mut m, &mut kb)?,
        }
    }
    // Gauss-Jordan
    let mut rank = 0;
    let mut pivcol = vec![];
    for c in 0..w {
        let Some(p) = (rank..w).find(|r| !m[*r][c].zero()) else { continue };
        m.swap(p, rank);
        let pv = m[rank][c];
        for r in 0..w {
            if r != rank && !m[r][c].zero() {
                let f = m[r][c].div(pv)?;
                for k in c..=w {
                    if !m[rank][k].zero() {
                        m[r][k] = m[r][k].add(m[rank][k].mul(f)?.neg())?;
                    }
                }
            }
        }
        pivcol.push(c);
        rank += 1;
    }
    for r in rank..w {
        if !m[r][w].zero() {
            return Some(Exact::None);
        }
    }
    if rank < w {
        return Some(Exact::Many);
    }
    let mut x = vec![0.0; w + 1];
    for (r, c) in pivcol.iter().enumerate() {
        x[*c + 1] = m[r][w].div(m[r][*c])?.f();
    }
    Some(Exact::Unique(x))
}

/// All vectors of length `len` over `0..k`
pub fn tuples(len: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    let mut v = vec![0usize; len];
    if k == 0 && len > 0 {
        return;
    }
    loop {
        f(&v);
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < k {
                break;
            }
            v[i] = 0;
        }
    }
}

/// All multisets of size `len` over `0..k`, as non-decreasing vectors
pub fn multisets(len: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(v: &mut Vec<usize>, len: usize, k: usize, lo: usize, f: &mut dyn FnMut(&[usize])) {
        if v.len() == len {
            f(v);
            return;
        }
        for i in lo..k {
            v.push(i);
            go(v, len, k, i, f);
            v.pop();
        }
    }
    go(&mut Vec::with_capacity(len), len, k, 0, f);
}

/// All permutations of `0..n`
pub fn permutations(n: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(v: &mut Vec<usize>, used: &mut Vec<bool>, n: usize, f: &mut dyn FnMut(&[usize])) {
        if v.len() == n {
            f(v);
            return;
        }
        for i in 0..n {
            if !used[i] {
                used[i] = true;
                v.push(i);
                go(v, used, n, f);
                v.pop();
                used[i] = false;
            }
        }
    }
    go(&mut vec![], &mut vec![false; n], n, f);
}

/// Ordered pairs of distinct nodes below `n`
pub fn ordered_pairs(n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b {
                v.push((a, b));
            }
        }
    }
    v
}
pub fn unordered_pairs(n: usize) -> Vec<(usize, usize)> {
    ordered_pairs(n).into_iter().filter(|(a, b)| a > b).collect()
}
