//! Exact solutions: the Riemann problem of the adiabatic and isothermal Euler equations, and simple waves

/// density, velocity, pressure (isothermal: pressure = c^2 density)
pub type W = [f64; 3];

#[derive(Clone, Copy, Debug)]
pub enum Gas {
    /// ratio of specific heats
    Adiabatic(f64),
    /// sound speed
    Isothermal(f64),
}

impl Gas {
    pub fn c(&self, w: &W) -> f64 {
        match self {
            Gas::Adiabatic(g) => (g * w[2] / w[0]).sqrt(),
            Gas::Isothermal(c) => *c,
        }
    }
    /// |velocity difference| across the wave between the state `w` and pressure `p`, signed: positive for shocks
    fn jump(&self, w: &W, p: f64) -> f64 {
        let c = self.c(w);
        match self {
            Gas::Adiabatic(g) => {
                if p > w[2] {
                    (p - w[2]) * (2.0 / ((g + 1.0) * w[0]) / (p + (g - 1.0) / (g + 1.0) * w[2])).sqrt()
                } else {
                    2.0 * c / (g - 1.0) * ((p / w[2]).powf((g - 1.0) / (2.0 * g)) - 1.0)
                }
            },
            Gas::Isothermal(_) => {
                let r = p / (c * c);
                if p > w[2] {
                    c * (r - w[0]) / (r * w[0]).sqrt()
                } else {
                    c * (r / w[0]).ln()
                }
            },
        }
    }
    /// density behind the wave
    fn rho_star(&self, w: &W, p: f64) -> f64 {
        match self {
            Gas::Adiabatic(g) => {
                let q = p / w[2];
                let m = (g - 1.0) / (g + 1.0);
                if q > 1.0 {
                    w[0] * (q + m) / (m * q + 1.0)
                } else {
                    w[0] * q.powf(1.0 / g)
                }
            },
            Gas::Isothermal(c) => p / (c * c),
        }
    }
}

/// The solution of a Riemann problem
#[derive(Clone, Debug)]
pub struct Riemann {
    gas: Gas,
    l: W,
    r: W,
    pub p: f64,
    pub u: f64,
    pub rho_l: f64,
    pub rho_r: f64,
}

impl Riemann {
    pub fn new(gas: Gas, l: W, r: W) -> Self {
        let f = |p: f64| gas.jump(&l, p) + gas.jump(&r, p) + r[1] - l[1];
        let (mut lo, mut hi) = ((l[2].min(r[2]) * 1e-12).ln(), (l[2].max(r[2]) * 1e12).ln());
        for _ in 0..200 {
            let m = 0.5 * (lo + hi);
            if m <= lo || m >= hi {
                break;
            }
            if f(m.exp()) > 0.0 {
                hi = m
            } else {
                lo = m
            }
        }
        let p = (0.5 * (lo + hi)).exp();
        let u = 0.5 * (l[1] + r[1] + gas.jump(&r, p) - gas.jump(&l, p));
        Self {
            gas,
            l,
            r,
            p,
            u,
            rho_l: gas.rho_star(&l, p),
            rho_r: gas.rho_star(&r, p),
        }
    }

    /// speeds of the head and tail of the left (-1) or right (+1) wave
    pub fn wave(&self, side: f64) -> (f64, f64) {
        let (w, rs) = if side < 0.0 { (&self.l, self.rho_l) } else { (&self.r, self.rho_r) };
        if self.p > w[2] {
            // mass conservation in the frame of the shock
            let s = (rs * self.u - w[0] * w[1]) / (rs - w[0]);
            // a weak shock moves with the speed of sound
            let s = if (rs / w[0] - 1.0).abs() < 1e-7 { w[1] + side * self.gas.c(w) } else { s };
            (s, s)
        } else {
            let star = [rs, self.u, self.p];
            (w[1] + side * self.gas.c(w), self.u + side * self.gas.c(&star))
        }
    }
    /// fastest signal
    pub fn speed(&self) -> f64 {
        self.wave(-1.0).0.abs().max(self.wave(1.0).0.abs())
    }
    /// the solution at x/t
    pub fn at(&self, xt: f64) -> W {
        let side = if xt < self.u { -1.0 } else { 1.0 };
        let (w, rs) = if side < 0.0 { (self.l, self.rho_l) } else { (self.r, self.rho_r) };
        let (head, tail) = self.wave(side);
        let y = side * xt;
        if y >= side * head {
            w
        } else if y <= side * tail {
            [rs, self.u, self.p]
        } else {
            let c = self.gas.c(&w);
            match self.gas {
                Gas::Adiabatic(g) => {
                    let cc = 2.0 / (g + 1.0) * (c + side * (g - 1.0) / 2.0 * (xt - w[1]));
                    let q = (cc / c).powf(2.0 / (g - 1.0));
                    [w[0] * q, xt - side * cc, w[2] * q.powf(g)]
                },
                Gas::Isothermal(_) => {
                    let u = xt - side * c;
                    let rho = w[0] * (side * (u - w[1]) / c).exp();
                    [rho, u, rho * c * c]
                },
            }
        }
    }
}

/// A simple wave running in direction `dir`: the density at time 0 is given, everything else follows from the constant
/// state `w0` ahead of the wave
pub struct SimpleWave<'a> {
    pub gas: Gas,
    pub w0: W,
    pub dir: f64,
    pub rho: &'a dyn Fn(f64) -> f64,
}
impl SimpleWave<'_> {
    /// state where the density is `rho`, and the speed of its characteristic
    pub fn state(&self, rho: f64) -> (W, f64) {
        let c0 = self.gas.c(&self.w0);
        let q = rho / self.w0[0];
        match self.gas {
            Gas::Adiabatic(g) => {
                let c = c0 * q.powf(0.5 * (g - 1.0));
                let u = self.w0[1] + self.dir * 2.0 / (g - 1.0) * (c - c0);
                ([rho, u, self.w0[2] * q.powf(g)], u + self.dir * c)
            },
            Gas::Isothermal(c) => {
                let u = self.w0[1] + self.dir * c * q.ln();
                ([rho, u, rho * c * c], u + self.dir * c)
            },
        }
    }
    /// the solution at x, t; before the wave breaks x0 + speed(x0) t is monotonic in x0
    pub fn at(&self, x: f64, t: f64, range: (f64, f64)) -> W {
        let foot = |x0: f64| x0 + self.state((self.rho)(x0)).1 * t;
        let (mut lo, mut hi) = range;
        for _ in 0..80 {
            let m = 0.5 * (lo + hi);
            if foot(m) > x {
                hi = m
            } else {
                lo = m
            }
        }
        self.state((self.rho)(0.5 * (lo + hi))).0
    }
}
