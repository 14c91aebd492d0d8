//! Generators: serialisable scenarios (physics, mesh, boundaries, numerics, initial state) and their strategies.

use crate::sim::{self, InitData, Sim, V2};
use corries::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fx {
    Hll,
    None,
    MinMod,
    Superbee,
    Monocent(f64),
    VanLeer,
}
impl Fx {
    pub fn conf(&self) -> NumFluxConfig {
        let k = |l| NumFluxConfig::Kt { limiter_mode: l };
        match self {
            Fx::Hll => NumFluxConfig::Hll,
            Fx::None => k(LimiterMode::NoLimiter),
            Fx::MinMod => k(LimiterMode::MinMod),
            Fx::Superbee => k(LimiterMode::Superbee),
            Fx::Monocent(t) => k(LimiterMode::Monocent(*t)),
            Fx::VanLeer => k(LimiterMode::VanLeer),
        }
    }
    pub fn is_hll(&self) -> bool {
        *self == Fx::Hll
    }
    pub fn name(&self) -> &'static str {
        match self {
            Fx::Hll => "hll",
            Fx::None => "kt-none",
            Fx::MinMod => "kt-minmod",
            Fx::Superbee => "kt-superbee",
            Fx::Monocent(_) => "kt-monocent",
            Fx::VanLeer => "kt-vanleer",
        }
    }
}
pub fn fx() -> impl Strategy<Value = Fx> {
    prop_oneof![
        3 => Just(Fx::Hll),
        1 => Just(Fx::None),
        1 => Just(Fx::MinMod),
        1 => Just(Fx::Superbee),
        1 => (1.01f64..2.0).prop_map(Fx::Monocent),
        2 => Just(Fx::VanLeer),
    ]
}
pub fn kt_fx() -> impl Strategy<Value = Fx> {
    prop_oneof![
        Just(Fx::None),
        Just(Fx::MinMod),
        Just(Fx::Superbee),
        (1.01f64..3.0).prop_map(Fx::Monocent),
        Just(Fx::VanLeer),
    ]
}
/// the limiters that keep steep problems bounded
pub fn stable_fx() -> impl Strategy<Value = Fx> {
    prop_oneof![
        3 => Just(Fx::Hll),
        1 => Just(Fx::MinMod),
        1 => Just(Fx::Superbee),
        1 => (1.01f64..1.6).prop_map(Fx::Monocent),
        2 => Just(Fx::VanLeer),
    ]
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Rk {
    RK1,
    RK2,
    RK3,
    RK4,
    Heun2,
    RKF12,
    RKF45,
    SSPRK3,
    SSPRK5,
}
pub const ALL_RK: [Rk; 9] = [
    Rk::RK1,
    Rk::RK2,
    Rk::RK3,
    Rk::RK4,
    Rk::Heun2,
    Rk::RKF12,
    Rk::RKF45,
    Rk::SSPRK3,
    Rk::SSPRK5,
];
impl Rk {
    pub fn conf(&self) -> RKFMode {
        match self {
            Rk::RK1 => RKFMode::RK1,
            Rk::RK2 => RKFMode::RK2,
            Rk::RK3 => RKFMode::RK3,
            Rk::RK4 => RKFMode::RK4,
            Rk::Heun2 => RKFMode::Heun2,
            Rk::RKF12 => RKFMode::RKF12,
            Rk::RKF45 => RKFMode::RKF45,
            Rk::SSPRK3 => RKFMode::SSPRK3,
            Rk::SSPRK5 => RKFMode::SSPRK5,
        }
    }
    pub fn has_asc(&self) -> bool {
        !matches!(self, Rk::RK1 | Rk::RK2 | Rk::RK4)
    }
    pub fn stages(&self) -> usize {
        match self {
            Rk::RK1 => 1,
            Rk::RK2 | Rk::Heun2 => 2,
            Rk::RK3 | Rk::RKF12 | Rk::SSPRK3 => 3,
            Rk::RK4 => 4,
            Rk::SSPRK5 => 5,
            Rk::RKF45 => 6,
        }
    }
}
pub fn rk() -> impl Strategy<Value = Rk> {
    proptest::sample::select(&ALL_RK[..])
}
pub fn rk_asc() -> impl Strategy<Value = Rk> {
    proptest::sample::select(&[Rk::RK3, Rk::Heun2, Rk::RKF12, Rk::RKF45, Rk::SSPRK3, Rk::SSPRK5][..])
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Bm {
    Extrapolate,
    KeplerDensity,
    KeplerEta,
    NearZero,
    NoGradients,
    OutflowNoGradients,
    OutflowExtrapolate,
    Reflecting,
}
pub const ALL_BM: [Bm; 8] = [
    Bm::Extrapolate,
    Bm::KeplerDensity,
    Bm::KeplerEta,
    Bm::NearZero,
    Bm::NoGradients,
    Bm::OutflowNoGradients,
    Bm::OutflowExtrapolate,
    Bm::Reflecting,
];
impl Bm {
    pub fn conf(&self) -> CustomBoundaryMode {
        match self {
            Bm::Extrapolate => CustomBoundaryMode::Extrapolate,
            Bm::KeplerDensity => CustomBoundaryMode::ExtrapolateDensityKepler,
            Bm::KeplerEta => CustomBoundaryMode::ExtrapolateEtaVelocityKepler,
            Bm::NearZero => CustomBoundaryMode::NearZero,
            Bm::NoGradients => CustomBoundaryMode::NoGradients,
            Bm::OutflowNoGradients => CustomBoundaryMode::OutflowNoGradients,
            Bm::OutflowExtrapolate => CustomBoundaryMode::OutFlowExtrapolate,
            Bm::Reflecting => CustomBoundaryMode::Reflecting,
        }
    }
    pub fn is_kepler(&self) -> bool {
        matches!(self, Bm::KeplerDensity | Bm::KeplerEta)
    }
    pub fn is_outflow(&self) -> bool {
        matches!(self, Bm::OutflowNoGradients | Bm::OutflowExtrapolate)
    }
}

/// Boundary conditions of one edge; None is corries' plain NoGradients
pub type Bc = Option<Vec<(usize, Bm)>>;

pub fn bc_conf(b: &Bc) -> BoundaryMode {
    match b {
        None => BoundaryMode::NoGradients,
        Some(v) => BoundaryMode::Custom(v.iter().map(|(j, m)| (*j, m.conf())).collect()),
    }
}

/// Boundary conditions for the scalars (density, pressure) and velocity.
pub fn bc(e: usize) -> impl Strategy<Value = Bc> {
    let scalar = || prop_oneof![6 => Just(Bm::NoGradients), 1 => Just(Bm::Extrapolate)];
    let vel = proptest::sample::select(&ALL_BM[..]);
    (0u8..5, scalar(), scalar(), vel, any::<bool>()).prop_map(move |(kind, d, p, v, rev)| match kind {
        0 => None,
        1 => Some(closed(e)),
        _ => {
            let mut x = vec![(0, d), (1, if v.is_kepler() { Bm::NoGradients } else { v })];
            if e == 3 {
                x.push((2, p));
            }
            if rev {
                x.reverse();
            }
            Some(x)
        },
    })
}
pub fn closed(e: usize) -> Vec<(usize, Bm)> {
    let mut x = vec![(0, Bm::NoGradients), (1, Bm::Reflecting)];
    if e == 3 {
        x.push((2, Bm::NoGradients));
    }
    x
}

/// A whole problem
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scn {
    pub ad: bool,
    pub gamma: f64,
    pub s: usize,
    pub fx: Fx,
    pub rk: Rk,
    /// relative tolerance, absolute tolerance, friction
    pub asc: Option<[f64; 3]>,
    pub xi_in: f64,
    pub xi_out: f64,
    pub bcw: Bc,
    pub bce: Bc,
    pub cfl: f64,
    pub dt_min: f64,
    pub dt_max: f64,
    pub t0: f64,
    pub t_end: f64,
    pub n_out: usize,
    pub iter_max: usize,
    /// per cell (including ghost cells): density, velocity, pressure (isothermal: sound speed)
    pub cells: Vec<[f64; 3]>,
}

impl Scn {
    pub fn e(&self) -> usize {
        if self.ad {
            3
        } else {
            2
        }
    }
    pub fn dx(&self) -> f64 {
        (self.xi_out - self.xi_in) / (self.s - 4) as f64
    }
    pub fn prim(&self) -> V2 {
        (0..self.e()).map(|j| self.cells.iter().map(|c| c[j]).collect()).collect()
    }
    pub fn c_iso(&self) -> Vec<f64> {
        if self.ad {
            vec![]
        } else {
            self.cells.iter().map(|c| c[2]).collect()
        }
    }
    pub fn c_of(&self, c: &[f64; 3]) -> f64 {
        if self.ad {
            (self.gamma * c[2] / c[0]).sqrt()
        } else {
            c[2]
        }
    }
    /// fastest signal speed of the initial state
    pub fn speed(&self) -> f64 {
        self.cells.iter().fold(0.0, |a: f64, c| a.max(c[1].abs() + self.c_of(c)))
    }
    pub fn init(&self) -> InitData {
        InitData {
            prim: self.prim(),
            c: self.c_iso(),
            fail: None,
        }
    }
    pub fn conf(&self) -> CorriesConfig {
        CorriesConfig {
            print_banner: false,
            mesh_config: MeshConfig {
                mode: MeshMode::Cartesian,
                xi_in: self.xi_in,
                xi_out: self.xi_out,
            },
            physics_config: PhysicsConfig {
                adiabatic_index: self.gamma,
                units_mode: UnitsMode::SI,
            },
            boundary_condition_west: bc_conf(&self.bcw),
            boundary_condition_east: bc_conf(&self.bce),
            numerics_config: NumericsConfig {
                numflux_config: self.fx.conf(),
                time_integration_config: TimeIntegrationConfig::Rkf(RkfConfig {
                    rkf_mode: self.rk.conf(),
                    asc: self.asc.is_some(),
                    asc_relative_tolerance: self.asc.map_or(0.001, |a| a[0]),
                    asc_absolute_tolerance: self.asc.map_or(0.001, |a| a[1]),
                    asc_timestep_friction: self.asc.map_or(0.08, |a| a[2]),
                }),
                iter_max: self.iter_max,
                t0: self.t0,
                t_end: self.t_end,
                dt_min: self.dt_min,
                dt_max: self.dt_max,
                dt_cfl_param: self.cfl,
            },
            output_counter_max: self.n_out,
            writer_config: vec![],
        }
    }
    pub fn build(&self) -> crate::engine::Res<Box<dyn Sim>> {
        match sim::build(&self.conf(), self.ad, self.s, self.init()) {
            Ok(s) => Ok(s),
            Err(e) => crate::engine::fail(format!("valid configuration rejected: {}", sim::errstr(&e))),
        }
    }
}

/// log-uniform
pub fn logu(lo: f64, hi: f64) -> impl Strategy<Value = f64> + Clone {
    (lo.log10()..hi.log10()).prop_map(|x: f64| 10f64.powf(x))
}

/// What the generator of scenarios may produce
#[derive(Clone, Copy, Debug)]
pub struct Opt {
    /// mesh sizes to draw from
    pub sizes: &'static [usize],
    /// largest logarithmic amplitude of density and pressure
    pub amp: f64,
    /// largest Mach number
    pub mach: f64,
    pub smooth_only: bool,
    pub closed: bool,
    pub plain_bc: bool,
    /// physical scales of the problem (orders of magnitude around 1)
    pub scales: f64,
    pub asc: bool,
    /// orders of magnitude by which the Mach number sometimes exceeds the largest one
    pub tail: f64,
    /// factor by which the logarithmic amplitude sometimes exceeds the largest one
    pub jumps: f64,
    /// number of CFL steps until t_end
    pub steps: f64,
    /// number of CFL steps that runs on small meshes sometimes take
    pub long: f64,
    pub stable: bool,
}
pub const SMALL: &[usize] = &[6, 7, 8, 9, 10, 12, 13, 16, 17];
pub const MEDIUM: &[usize] = &[6, 7, 8, 9, 10, 12, 13, 16, 17, 33, 36, 68, 100];
/// mostly small meshes, sometimes large ones
pub const MIXED: &[usize] = &[6, 6, 7, 7, 8, 8, 9, 9, 10, 12, 12, 13, 16, 17, 17, 6, 7, 8, 9, 10, 12, 13, 16, 17, 33, 36, 36, 68, 100, 132, 260, 515, 1030];
impl Default for Opt {
    fn default() -> Self {
        Self {
            sizes: MEDIUM,
            amp: 2.0,
            mach: 3.0,
            smooth_only: false,
            closed: false,
            plain_bc: false,
            scales: 3.0,
            asc: false,
            tail: 2.0,
            jumps: 5.0,
            steps: 20.0,
            long: 0.0,
            stable: false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Motion {
    Free,
    /// all cells move with exactly their speed of sound
    Sonic,
    PartlySonic,
    Rest,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Pat {
    Uniform,
    Step,
    Smooth,
    Random,
    Spike,
    Linear,
}

/// Coordinates of the inner edge such that no cell centre or face comes to lie on 0 (1/xi must be finite)
pub fn xi_in_strategy() -> impl Strategy<Value = f64> {
    // in units of dxi
    let frac = prop_oneof![0.1f64..0.4, 0.6f64..0.9];
    (prop_oneof![3 => 3i32..60, 1 => -60i32..3], frac).prop_map(|(k, f)| k as f64 + f)
}

pub fn scn(o: Opt) -> BoxedStrategy<Scn> {
    let fxs = if o.stable { stable_fx().boxed() } else { fx().boxed() };
    let head = (
        any::<bool>(),
        prop_oneof![4 => Just(1.4), 4 => Just(5.0 / 3.0), 6 => 1.05f64..1.95, 1 => 1.001f64..1.05, 1 => 1.95f64..1.999],
        proptest::sample::select(o.sizes),
        fxs,
        rk(),
        (logu(1e-5, 1e-1), logu(1e-4, 1.0), logu(0.01, 0.5)),
        prop_oneof![Just(0.4), 0.05f64..0.9],
    );
    let so = o.scales;
    let sc = move || {
        if so > 0.0 {
            prop_oneof![3 => Just(0.0), 6 => -so..so, 1 => -4.0 * so..4.0 * so].boxed()
        } else {
            Just(0.0).boxed()
        }
    };
    let scales = (
        sc(), // width
        sc(), // density
        sc(), // sound speed
        xi_in_strategy(),
        prop_oneof![2 => Just(0.0), 1 => 0.0f64..100.0], // t0 in units of the duration
        0usize..5,
        (1.0f64..o.steps.max(1.1), prop_oneof![30 => Just(0.0), 1 => 0.1f64..1.0]),
    );
    let pats = prop_oneof![
        1 => Just(Pat::Uniform),
        3 => Just(Pat::Step),
        3 => Just(Pat::Smooth),
        3 => Just(Pat::Random),
        1 => Just(Pat::Spike),
        1 => Just(Pat::Linear),
    ];
    let state = (
        pats,
        prop_oneof![Just(0.1), Just(0.5), Just(1.0)],
        -1.0f64..1.0, // base Mach number / max
        proptest::collection::vec(([-1.0f64..1.0, -1.0f64..1.0, -1.0f64..1.0], 0.0f64..1.0), 20),
        prop_oneof![Just(true), Just(false)],
        prop_oneof![8 => Just(0.0), 1 => 0.0..1.0f64],
        prop_oneof![14 => Just(1.0), 1 => 1.0..o.jumps.max(1.001)],
        prop_oneof![20 => Just(Motion::Free), 1 => Just(Motion::Sonic), 1 => Just(Motion::PartlySonic), 1 => Just(Motion::Rest)],
    );
    let bcs = (any::<u8>(), bc(3), bc(3), bc(2), bc(2));
    (head, scales, state, bcs)
        .prop_map(move |(head, scales, state, bcs)| {
            let (ad, gamma, s, fx, rk, asc, cfl) = head;
            let (w, d0, c0, xi, t0, n_out, (nsteps, long)) = scales;
            let nsteps = if s <= 9 { nsteps.max(long * o.long) } else { nsteps };
            let (pat, amp, base, raw, vary_v, tail, jumps, motion) = state;
            let pat = if o.smooth_only && !matches!(pat, Pat::Uniform | Pat::Linear) { Pat::Smooth } else { pat };
            let width = 10f64.powf(w);
            let dx = width / (s - 4) as f64;
            let xi_in = xi * dx;
            let rho0 = 10f64.powf(d0);
            let cs = 10f64.powf(c0);
            let amp = amp * o.amp * jumps;
            let base = if pat == Pat::Random { base * 0.5 } else { base };
            let mach = o.mach * 10f64.powf(tail * o.tail);
            let cells: Vec<[f64; 3]> = (0..s)
                .map(|i| {
                    let r = raw[i % raw.len()].0;
                    let x = (i as f64 + 0.5) / s as f64;
                    let m = |k: usize| -> f64 {
                        match pat {
                            Pat::Uniform => raw[0].0[k],
                            Pat::Step => {
                                let at = 2.0 + (s - 4) as f64 * raw[1].1;
                                if (i as f64) < at {
                                    raw[0].0[k]
                                } else {
                                    raw[1].0[k]
                                }
                            },
                            Pat::Smooth => {
                                let n = 1.0 + (raw[2].1 * 2.0).floor();
                                raw[0].0[k] * (6.283185307179586 * (n * x + raw[k].1)).sin()
                            },
                            Pat::Random => r[k],
                            Pat::Spike => {
                                let at = 2 + ((s - 4) as f64 * raw[1].1) as usize;
                                if i == at {
                                    raw[0].0[k]
                                } else {
                                    0.0
                                }
                            },
                            Pat::Linear => raw[0].0[k] * (x - 0.5),
                        }
                    };
                    let rho = rho0 * (amp * m(0)).exp();
                    let dv = if vary_v { m(1) } else { 0.0 };
                    let v = cs * mach * (0.5 * base + 0.5 * dv);
                    let mut cell = if ad {
                        [rho, v, rho0 * cs * cs / gamma * (amp * m(2)).exp()]
                    } else {
                        [rho, v, cs * (0.3 * amp * m(2)).exp()]
                    };
                    let c = if ad { (gamma * cell[2] / rho).sqrt() } else { cell[2] };
                    match motion {
                        Motion::Free => {},
                        Motion::Rest => cell[1] = 0.0,
                        Motion::Sonic => cell[1] = if base > 0.0 { c } else { -c },
                        Motion::PartlySonic => {
                            if m(1) > 0.0 {
                                cell[1] = if base > 0.0 { c } else { -c }
                            }
                        },
                    }
                    cell
                })
                .collect();
            let (bcw, bce) = if o.closed {
                let e = if ad { 3 } else { 2 };
                (Some(closed(e)), Some(closed(e)))
            } else if o.plain_bc {
                (None, None)
            } else if ad {
                (bcs.1, bcs.2)
            } else {
                (bcs.3, bcs.4)
            };
            let (mut bcw, mut bce) = (bcw, bce);
            if motion == Motion::Rest {
                // outflow conditions would be undecided
                for b in [&mut bcw, &mut bce].into_iter().flatten() {
                    for (_, m) in b.iter_mut() {
                        if m.is_outflow() {
                            *m = Bm::Reflecting;
                        }
                    }
                }
            }
            let mut r = Scn {
                ad,
                gamma,
                s,
                fx,
                rk,
                asc: if o.asc && rk.has_asc() && bcs.0 % 4 != 0 { Some([asc.0, asc.1, asc.2]) } else { None },
                xi_in,
                xi_out: xi_in + width,
                bcw,
                bce,
                cfl,
                dt_min: 0.0,
                dt_max: f64::MAX,
                t0: 0.0,
                t_end: 0.0,
                n_out,
                iter_max: 5000,
                cells,
            };
            let dt = cfl * dx / r.speed();
            let dur = dt * nsteps;
            r.t0 = t0 * dur;
            r.t_end = r.t0 + dur;
            r.dt_min = dt * 1e-7;
            r
        })
        .boxed()
}
