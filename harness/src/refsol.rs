//! The independent reference: plain vectors, written from the documentation.

use crate::gen::{Bc, Bm, Fx, Rk, Scn};
use crate::sim::V2;

pub struct RefMesh {
    pub dx: f64,
    pub xw: Vec<f64>,
    pub xc: Vec<f64>,
    pub xe: Vec<f64>,
}
pub fn mesh(xi_in: f64, xi_out: f64, s: usize) -> RefMesh {
    let n = (s - 4) as f64;
    let at = |i: f64| xi_in + (xi_out - xi_in) * (i - 2.0) / n;
    RefMesh {
        dx: (xi_out - xi_in) / n,
        xw: (0..s).map(|i| at(i as f64)).collect(),
        xc: (0..s).map(|i| at(i as f64 + 0.5)).collect(),
        xe: (0..s).map(|i| at(i as f64 + 1.0)).collect(),
    }
}

/// The boundary modes of every equation
pub fn modes(b: &Bc, e: usize) -> Vec<(usize, Bm)> {
    match b {
        None => (0..e).map(|j| (j, Bm::NoGradients)).collect(),
        Some(v) => v.clone(),
    }
}

/// Ghost values (nearest first) from the interior values (nearest first). `x`: centres of [near, far, ghost1, ghost2];
/// `inward`: sign of velocities that point into the domain
pub fn ghost(mode: Bm, near: f64, far: f64, x: [f64; 3], inward: f64) -> [f64; 2] {
    match mode {
        Bm::NoGradients => [near, near],
        Bm::Extrapolate => [near + (near - far), near + 2.0 * (near - far)],
        Bm::NearZero => [1e-10 * near, 1e-10 * near],
        Bm::Reflecting => [-near, -far],
        Bm::KeplerDensity | Bm::KeplerEta => [near * (x[0] / x[1]).sqrt(), near * (x[0] / x[2]).sqrt()],
        Bm::OutflowNoGradients | Bm::OutflowExtrapolate => {
            if near.is_sign_negative() == (inward < 0.0) {
                ghost(Bm::Reflecting, near, far, x, inward)
            } else if mode == Bm::OutflowNoGradients {
                ghost(Bm::NoGradients, near, far, x, inward)
            } else {
                ghost(Bm::Extrapolate, near, far, x, inward)
            }
        },
    }
}

pub fn apply_bc(prim: &mut V2, bcw: &Bc, bce: &Bc, m: &RefMesh) {
    let e = prim.len();
    let s = prim[0].len();
    for (j, mode) in modes(bcw, e) {
        let g = ghost(mode, prim[j][2], prim[j][3], [m.xc[2], m.xc[1], m.xc[0]], 1.0);
        prim[j][1] = g[0];
        prim[j][0] = g[1];
    }
    for (j, mode) in modes(bce, e) {
        let g = ghost(mode, prim[j][s - 3], prim[j][s - 4], [m.xc[s - 3], m.xc[s - 2], m.xc[s - 1]], -1.0);
        prim[j][s - 2] = g[0];
        prim[j][s - 1] = g[1];
    }
}

pub fn to_cons(prim: &V2, gamma: f64) -> V2 {
    let s = prim[0].len();
    let mut c = vec![prim[0].clone(), (0..s).map(|i| prim[0][i] * prim[1][i]).collect()];
    if prim.len() == 3 {
        c.push((0..s).map(|i| prim[2][i] / (gamma - 1.0) + 0.5 * prim[0][i] * prim[1][i] * prim[1][i]).collect());
    }
    c
}
pub fn to_prim(cons: &V2, gamma: f64) -> V2 {
    let s = cons[0].len();
    let mut p = vec![cons[0].clone(), (0..s).map(|i| cons[1][i] / cons[0][i]).collect()];
    if cons.len() == 3 {
        p.push(
            (0..s)
                .map(|i| (gamma - 1.0) * (cons[2][i] - 0.5 * cons[1][i] * cons[1][i] / cons[0][i]))
                .collect(),
        );
    }
    p
}
pub fn sound(prim: &V2, gamma: f64, c_iso: &[f64]) -> Vec<f64> {
    if prim.len() == 3 {
        (0..prim[0].len()).map(|i| (gamma * prim[2][i] / prim[0][i]).sqrt()).collect()
    } else {
        c_iso.to_vec()
    }
}
pub fn flux(prim: &V2, cons: &V2, c: &[f64]) -> V2 {
    let s = prim[0].len();
    if prim.len() == 3 {
        vec![
            cons[1].clone(),
            (0..s).map(|i| cons[1][i] * prim[1][i] + prim[2][i]).collect(),
            (0..s).map(|i| (cons[2][i] + prim[2][i]) * prim[1][i]).collect(),
        ]
    } else {
        vec![
            cons[1].clone(),
            (0..s).map(|i| cons[1][i] * prim[1][i] + prim[0][i] * c[i] * c[i]).collect(),
        ]
    }
}

pub fn limiter(fx: Fx, a: f64, b: f64) -> f64 {
    // differences to the west (a) and to the east (b)
    let same = (a > 0.0 && b > 0.0) || (a < 0.0 && b < 0.0);
    let sgn = if a > 0.0 { 1.0 } else { -1.0 };
    let (x, y) = (a.abs(), b.abs());
    match fx {
        Fx::Hll => 0.0,
        Fx::None => 0.5 * (a + b),
        Fx::MinMod => {
            if same {
                sgn * x.min(y)
            } else {
                0.0
            }
        },
        Fx::Superbee => {
            if same {
                sgn * x.min(y).min(0.5 * x.max(y))
            } else {
                0.0
            }
        },
        Fx::Monocent(t) => {
            if same {
                sgn * (t * x).min(t * y).min(0.5 * (x + y))
            } else {
                0.0
            }
        },
        Fx::VanLeer => {
            if same {
                // harmonic mean
                sgn * (2.0 * (x / (x + y)) * y)
            } else {
                0.0
            }
        },
    }
}

/// Everything the reference knows about one evaluation of the right-hand side
pub struct RhsOut {
    pub rhs: V2,
    /// sizes of the terms that make up an entry, for tolerances
    pub scale: V2,
    /// numerical flux at the east face of cell i
    pub flux: V2,
    pub flux_scale: V2,
    /// conservative variables at the faces
    pub west: V2,
    pub east: V2,
    /// whether all values (including faces) are physical, with some margin
    pub physical: bool,
    pub prim: V2,
    pub cons: V2,
    pub c: Vec<f64>,
}

pub struct Problem {
    pub gamma: f64,
    pub fx: Fx,
    pub bcw: Bc,
    pub bce: Bc,
    pub mesh: RefMesh,
    pub c_iso: Vec<f64>,
    pub s: usize,
    pub e: usize,
}

impl Problem {
    pub fn new(x: &Scn) -> Self {
        Self {
            gamma: x.gamma,
            fx: x.fx,
            bcw: x.bcw.clone(),
            bce: x.bce.clone(),
            mesh: mesh(x.xi_in, x.xi_out, x.s),
            c_iso: x.c_iso(),
            s: x.s,
            e: x.e(),
        }
    }

    /// Fills ghost cells from the interior
    pub fn complete(&self, cons: &V2) -> (V2, V2, Vec<f64>) {
        let mut prim = to_prim(cons, self.gamma);
        apply_bc(&mut prim, &self.bcw, &self.bce, &self.mesh);
        let c = sound(&prim, self.gamma, &self.c_iso);
        let cons = to_cons(&prim, self.gamma);
        (prim, cons, c)
    }

    pub fn rhs(&self, cons_in: &V2) -> RhsOut {
        let (prim, cons, c) = self.complete(cons_in);
        self.rhs_completed(prim, cons, c)
    }

    pub fn rhs_completed(&self, prim: V2, cons: V2, c: Vec<f64>) -> RhsOut {
        let (s, e) = (self.s, self.e);
        let hll = self.fx == Fx::Hll;
        let (mut west, mut east) = (cons.clone(), cons.clone());
        if !hll {
            for j in 0..e {
                for i in 1..s - 1 {
                    let l = limiter(self.fx, cons[j][i] - cons[j][i - 1], cons[j][i + 1] - cons[j][i]);
                    west[j][i] = cons[j][i] - 0.5 * l;
                    east[j][i] = cons[j][i] + 0.5 * l;
                }
            }
        }
        let pw = to_prim(&west, self.gamma);
        let pe = to_prim(&east, self.gamma);
        let cw = if hll { c.clone() } else { sound(&pw, self.gamma, &c) };
        let ce = if hll { c.clone() } else { sound(&pe, self.gamma, &c) };
        let (pw, pe) = if hll { (prim.clone(), prim.clone()) } else { (pw, pe) };
        let fw = flux(&pw, &west, &cw);
        let fe = flux(&pe, &east, &ce);
        let mut physical = true;
        for (p, cc, k) in [(&pw, &west, &cw), (&pe, &east, &ce), (&prim, &cons, &c)] {
            for i in 0..s {
                let ok = p[0][i] > 0.0
                    && k[i].is_finite()
                    && k[i] > 0.0
                    && (e == 2 || p[2][i] > 1e-6 * (self.gamma - 1.0) * cc[2][i])
                    && (0..e).all(|j| cc[j][i].is_finite() && cc[j][i].abs() < 1e150)
                    && p[0][i] > 1e-6 * prim[0].iter().cloned().fold(0.0, f64::max) * 1e-6;
                physical &= ok;
            }
        }
        for i in 0..s {
            // densities at faces that are what is left after cancellation
            let half = (east[0][i] - cons[0][i]).abs();
            physical &= west[0][i].min(east[0][i]) > 2e-2 * (cons[0][i] + half);
        }
        let mut fl = vec![vec![0.0; s]; e];
        let mut fsc = vec![vec![0.0; s]; e];
        for i in 1..s - 2 {
            // face between i (left, its east face) and i+1 (right, its west face)
            let sl = (pe[1][i] - ce[i]).min(pw[1][i + 1] - cw[i + 1]).min(0.0);
            let sr = (pe[1][i] + ce[i]).max(pw[1][i + 1] + cw[i + 1]).max(0.0);
            for j in 0..e {
                let (ul, ur) = (east[j][i], west[j][i + 1]);
                fl[j][i] = (sr * fe[j][i] - sl * fw[j][i + 1] + sl * sr * (ur - ul)) / (sr - sl);
                let a = sr.max(-sl);
                // momentum fluxes cancel between rho v^2 and p, so take generous per-term sizes
                let u_l = Self::cell_scale(j, &pe, &ce, i, self.gamma);
                let u_r = Self::cell_scale(j, &pw, &cw, i + 1, self.gamma);
                fsc[j][i] = fe[j][i].abs() + fw[j][i + 1].abs() + a * (ul.abs() + ur.abs() + u_l + u_r);
                if e == 3 {
                    // energies at faces that are what is left after cancellation carry the rounding of the cells'
                    // energies, and so do the sound speeds that follow from them
                    let left = (cons[2][i].abs() + (east[2][i] - cons[2][i]).abs()) / east[2][i].abs();
                    let right = (cons[2][i + 1].abs() + (west[2][i + 1] - cons[2][i + 1]).abs()) / west[2][i + 1].abs();
                    let amp = left.max(right);
                    if amp > 10.0 {
                        fsc[j][i] *= 1.0 + 0.01 * amp;
                    }
                }
            }
        }
        let mut rhs = vec![vec![0.0; s]; e];
        let mut sc = vec![vec![0.0; s]; e];
        for j in 0..e {
            for i in 2..s - 2 {
                rhs[j][i] = (fl[j][i] - fl[j][i - 1]) / self.mesh.dx;
                sc[j][i] = (fsc[j][i] + fsc[j][i - 1]) / self.mesh.dx;
            }
        }
        RhsOut {
            rhs,
            scale: sc,
            flux: fl,
            flux_scale: fsc,
            west,
            east,
            physical,
            prim,
            cons,
            c,
        }
    }

    /// Natural size of the conservative variable `j` in a cell
    pub fn cell_scale(j: usize, p: &V2, c: &[f64], i: usize, gamma: f64) -> f64 {
        let a = p[1][i].abs() + c[i];
        match j {
            0 => p[0][i].abs(),
            1 => p[0][i].abs() * a,
            _ => p[0][i].abs() * a * a / (gamma - 1.0),
        }
    }

    /// Global sizes of the conservative variables
    pub fn scales(&self, prim: &V2, c: &[f64]) -> Vec<f64> {
        let rho = prim[0].iter().fold(0.0f64, |a, x| a.max(x.abs()));
        let a = (0..self.s).fold(0.0f64, |acc, i| acc.max(prim[1][i].abs() + c[i]));
        (0..self.e)
            .map(|j| match j {
                0 => rho,
                1 => rho * a,
                _ => rho * a * a / (self.gamma - 1.0),
            })
            .collect()
    }

    pub fn crossing_time(&self, prim: &V2, c: &[f64]) -> f64 {
        let a = (0..self.s).fold(0.0f64, |acc, i| acc.max(prim[1][i].abs() + c[i]));
        self.mesh.dx / a
    }

    /// One Runge-Kutta step with the given right-hand side function. Returns (high, low, all stages physical).
    pub fn step(&self, rk: Rk, cons: &V2, dt: f64) -> (V2, V2, bool) {
        let mut physical = true;
        let (h, l) = rk_step(rk, cons, dt, &mut |u: &V2| {
            let r = self.rhs(u);
            physical &= r.physical;
            r.rhs
        });
        (h, l, physical)
    }
}

/// One step of du/dt = -rhs(u) for the tableau of `rk`: high and low order solutions
pub fn rk_step(rk: Rk, u: &V2, dt: f64, rhs: &mut dyn FnMut(&V2) -> V2) -> (V2, V2) {
    let (a, b, bl) = tableau(rk);
    let mut k: Vec<V2> = vec![];
    for q in 0..b.len() {
        let mut w = u.clone();
        for p in 0..q {
            axpy(&mut w, -dt * a[q][p], &k[p]);
        }
        k.push(rhs(&w));
    }
    let mut hi = u.clone();
    let mut lo = u.clone();
    for q in 0..b.len() {
        axpy(&mut hi, -dt * b[q], &k[q]);
        axpy(&mut lo, -dt * bl[q], &k[q]);
    }
    (hi, lo)
}
fn axpy(w: &mut V2, f: f64, k: &V2) {
    if f == 0.0 {
        return;
    }
    for (x, y) in w.iter_mut().zip(k) {
        for (p, q) in x.iter_mut().zip(y) {
            *p += f * q;
        }
    }
}

/// Textbook Butcher tableaux: (A rows, b, embedded b)
pub fn tableau(rk: Rk) -> (Vec<Vec<f64>>, Vec<f64>, Vec<f64>) {
    match rk {
        Rk::RK1 => (vec![vec![]], vec![1.0], vec![0.0]),
        Rk::RK2 => (vec![vec![], vec![0.5]], vec![0.0, 1.0], vec![0.0; 2]),
        Rk::RK3 => (
            vec![vec![], vec![0.5], vec![-1.0, 2.0]],
            vec![1.0 / 6.0, 4.0 / 6.0, 1.0 / 6.0],
            vec![0.0, 1.0, 0.0],
        ),
        Rk::RK4 => (
            vec![vec![], vec![0.5], vec![0.0, 0.5], vec![0.0, 0.0, 1.0]],
            vec![1.0 / 6.0, 1.0 / 3.0, 1.0 / 3.0, 1.0 / 6.0],
            vec![0.0; 4],
        ),
        Rk::Heun2 => (vec![vec![], vec![1.0]], vec![0.5, 0.5], vec![1.0, 0.0]),
        Rk::RKF12 => (
            vec![vec![], vec![0.5], vec![1.0 / 256.0, 255.0 / 256.0]],
            vec![1.0 / 512.0, 255.0 / 256.0, 1.0 / 512.0],
            vec![1.0 / 256.0, 255.0 / 256.0, 0.0],
        ),
        Rk::RKF45 => (
            vec![
                vec![],
                vec![1.0 / 4.0],
                vec![3.0 / 32.0, 9.0 / 32.0],
                vec![1932.0 / 2197.0, -7200.0 / 2197.0, 7296.0 / 2197.0],
                vec![439.0 / 216.0, -8.0, 3680.0 / 513.0, -845.0 / 4104.0],
                vec![-8.0 / 27.0, 2.0, -3544.0 / 2565.0, 1859.0 / 4104.0, -11.0 / 40.0],
            ],
            vec![16.0 / 135.0, 0.0, 6656.0 / 12825.0, 28561.0 / 56430.0, -9.0 / 50.0, 2.0 / 55.0],
            vec![25.0 / 216.0, 0.0, 1408.0 / 2565.0, 2197.0 / 4104.0, -1.0 / 5.0, 0.0],
        ),
        Rk::SSPRK3 => (
            vec![vec![], vec![1.0], vec![0.25, 0.25]],
            vec![1.0 / 6.0, 1.0 / 6.0, 4.0 / 6.0],
            vec![0.5, 0.5, 0.0],
        ),
        // Macdonald's five-stage third-order SSP scheme embedded into a fourth-order scheme, five digits
        Rk::SSPRK5 => (
            vec![
                vec![],
                vec![0.36717],
                vec![0.26802, 0.31720],
                vec![0.11606, 0.13735, 0.18816],
                vec![0.11212, 0.13269, 0.18178, 0.41980],
            ],
            vec![0.17279, 0.094505, 0.12947, 0.29899, 0.30424],
            vec![0.12293, 0.31981, -0.15316, 0.31887, 0.39155],
        ),
    }
}

/// formal order in time
pub fn order(rk: Rk) -> f64 {
    match rk {
        Rk::RK1 => 1.0,
        Rk::RK2 | Rk::Heun2 | Rk::RKF12 => 2.0,
        Rk::RK3 | Rk::SSPRK3 | Rk::SSPRK5 => 3.0,
        Rk::RK4 => 4.0,
        Rk::RKF45 => 5.0,
    }
}

/// The embedded error estimate of a step over the interior cells
pub fn asc_err(hi: &V2, lo: &V2, rtol: f64, atol: f64) -> f64 {
    let s = hi[0].len();
    let mut e = 0.0f64;
    for j in 0..hi.len() {
        for i in 2..s - 2 {
            e = e.max(((hi[j][i] - lo[j][i]) / (rtol * (hi[j][i].abs() + atol))).abs());
        }
    }
    e
}
